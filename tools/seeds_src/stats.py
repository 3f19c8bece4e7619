SEEDS = [
dict(id='c07-shortest-interval', property='C07',
     edits=[('profiling/sampling/samplers.py', """        self.interval = interval


class ItimerSampler""", """        # no timer is finer than that.
        self.interval = max(interval, INTERVAL)


class ItimerSampler""")],
     needs='a sampling interval below a millisecond', breaks='Threads are sampled less often than once per interval.',
     demo='''
import time
clk = [0]
time.clock_gettime = lambda which: clk[0]
from profiling.sampling.samplers import TracingSampler
class P(object):
    samples = 0
    def sample(self, frame):
        self.samples += 1
p, s = P(), TracingSampler(1e-4)
for n in range(1, 9):
    clk[0] += 2e-4
    s._profile(p, None, None, None)
    assert p.samples == n, (n, p.samples)
'''),
dict(id='c07-interval-grid', property='C07',
     edits=[('profiling/sampling/samplers.py', "        t = thread_clock()\n",
             "        t = thread_clock() // self.interval * self.interval\n")],
     needs='a thread clock that passes a multiple of the interval shortly after a sample', breaks='Two samples are closer together than the interval.',
     demo='''
import time
clk = [0]
time.clock_gettime = lambda which: clk[0]
from profiling.sampling.samplers import TracingSampler
class P(object):
    samples = 0
    def sample(self, frame):
        self.samples += 1
p, s = P(), TracingSampler(1)
for clk[0], n in ((1.75, 1), (2.25, 1), (2.74, 1), (2.75, 2)):
    s._profile(p, None, None, None)
    assert p.samples == n, (clk, p.samples, n)
'''),
dict(id='c08-ignored-base', property='C08',
     edits=[('profiling/utils.py', """            if frame is base_frame or frame.f_code is base_code:
                break
            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            else:
                frames.appendleft(frame)
            frame = frame.f_back
""", """            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            elif frame is base_frame or frame.f_code is base_code:
                break
            else:
                frames.appendleft(frame)
            frame = frame.f_back
""")],
     needs='a base frame that is ignored too', breaks='The frame stack goes on beyond the base.',
     demo='''
import sys
from profiling.utils import frame_stack
def base():
    return inner(), sys._getframe()
def inner():
    return sys._getframe()
top, b = base()
f = list(frame_stack(top, b, None, (), (base.__code__,)))
assert f == [top], f
'''),
dict(id='c08-base-code-equal', property='C08',
     edits=[('profiling/utils.py', "            if frame is base_frame or frame.f_code is base_code:\n",
             "            if base_frame is frame or (base_frame is None and\n                                       frame.f_code is base_code):\n")],
     needs='both a base frame and a base code, with the base code nearer than the base frame', breaks='The base code is disregarded when there is a base frame.',
     demo='''
import sys
from profiling.utils import frame_stack
def base():
    return inner()
def inner():
    return sys._getframe()
top = base()
f = list(frame_stack(top, sys._getframe(), base.__code__))
assert f == [top], f
'''),
dict(id='c09-hits-below-void', property='C09',
     edits=[('profiling/stats.py', "        hits.extend(stats.own_hits for stats in spread_stats(self))\n        return sum(hits)\n",
             """        for stats, spread in spread_stats(self, spreader=True):
            if not (stats.own_hits or stats.deep_time):
                # nothing has been recorded below.
                continue
            hits.append(stats.own_hits)
            spread()
        return sum(hits)
""")],
     needs='an ancestor without hits and time (of samples, or of calls that took no time) with recorded functions below', breaks='Inclusive hits miss what is below a node without hits.',
     demo='''
from profiling.stats import RecordingStatistics, VoidRecordingStatistics
def f(): pass
def g(): pass
root = RecordingStatistics()
void = root.ensure_child(f.__code__, VoidRecordingStatistics)
void.ensure_child(g.__code__, RecordingStatistics).own_hits += 2
assert root.deep_hits == 2, root.deep_hits
'''),
dict(id='c09-own-time-calls', property='C09',
     edits=[('profiling/stats.py', "        sub_time = sum(stats.deep_time for stats in self)\n",
             "        sub_time = sum(stats.deep_time_per_call * stats.own_hits\n                       for stats in self)\n")],
     needs='a child without hits that has time (an absent ancestor)', breaks='The exclusive time of a node includes that of its children without hits.',
     demo='''
from profiling.stats import FrozenStatistics
child = FrozenStatistics('f', deep_time=3., own_hits=0)
root = FrozenStatistics('g', deep_time=4., own_hits=1, children=[child])
assert root.own_time == 1, root.own_time
'''),
dict(id='c10-recursive', property='C10',
     edits=[('profiling/stats.py', """    tree, stats_tree = [], [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append((parent_offset, members))
    return tree
""", """    tree = []

    def visit(parent_offset, _stats):
        offset = len(tree)
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append((parent_offset, members))
        for s in _stats:
            visit(offset, s)
    visit(None, stats)
    return tree
""")],
     needs='a tree deeper than the recursion limit', breaks='Pickling a deep tree fails.',
     demo='''
import pickle
from profiling.stats import RecordingStatistics
def f(): pass
root = node = RecordingStatistics()
for _ in range(3000):
    node = node.ensure_child(f.__code__)
    node.own_hits = 1
assert pickle.loads(pickle.dumps(root)).deep_hits == 3000
'''),
dict(id='c10-interned', property='C10',
     edits=[('profiling/stats.py', """    stats_index = []
    for parent_offset, members in tree:
        stats = FrozenStatistics(*members)
        stats_index.append(stats)
""", """    stats_index, interned = [], {}
    for parent_offset, members in tree:
        # equal leaves are shared.
        stats = interned.get(members)
        if stats is None:
            stats = interned[members] = FrozenStatistics(*members)
        stats_index.append(stats)
""")],
     needs='two nodes of one function on different paths with the same figures, one of which has children', breaks='Nodes with equal members share their children.',
     demo='''
import pickle
from profiling.stats import RecordingStatistics
def f(): pass
def g(): pass
def h(): pass
root = RecordingStatistics()
for code in (f.__code__, g.__code__):
    x = root.ensure_child(code).ensure_child(h.__code__)
    x.own_hits = 1
x.ensure_child(f.__code__).own_hits = 5
copy = pickle.loads(pickle.dumps(root))
assert [s.deep_hits for s in copy] == [s.deep_hits for s in root], [s.deep_hits for s in copy]
'''),
dict(id='c11-without-hits', property='C11',
     edits=[('profiling/stats.py', """        for _stats in spread_stats(stats):
            key = (""", """        for _stats in spread_stats(stats):
            if not _stats.own_hits:
                continue
            key = (""")],
     needs='a function that was never entered while profiling but has recorded descendants', breaks='There is no row for functions without hits, and their time is lost.',
     demo='''
from profiling.stats import FlatFrozenStatistics, RecordingStatistics, VoidRecordingStatistics
def f(): pass
def g(): pass
root = RecordingStatistics()
void = root.ensure_child(f.__code__, VoidRecordingStatistics)
void.ensure_child(g.__code__, RecordingStatistics).own_hits += 2
flat = FlatFrozenStatistics.flatten(root)
assert sorted(s.name for s in flat) == ['f', 'g'], list(flat)
'''),
dict(id='c11-regular-name', property='C11',
     edits=[('profiling/stats.py', """            try:
                flat_stats = flat_children[key]
            except KeyError:
                flat_stats = flat_children[key] = cls(*key)
""", """            # the line tells functions of a module apart.
            row = (_stats.regular_name, _stats.lineno)
            try:
                flat_stats = flat_children[row]
            except KeyError:
                flat_stats = flat_children[row] = cls(*key)
""")],
     needs='functions of the same name at the same line of different files without a module', breaks='Different functions share a row.',
     demo='''
from profiling.stats import FlatFrozenStatistics, RecordingStatistics
root = RecordingStatistics()
for name in ('<a>', '<b>'):
    ns = {}
    exec(compile('def f(): return %r' % name, name, 'exec'), ns)
    root.ensure_child(ns['f'].__code__).own_hits += 1
flat = FlatFrozenStatistics.flatten(root)
assert len(flat) == 2, list(flat)
'''),
dict(id='c12-rounded', property='C12',
     edits=[('profiling/sortkeys.py', "by_deep_time = SortKey(lambda stat: -stat.deep_time)\n",
             "by_deep_time = SortKey(lambda stat: -round(stat.deep_time, 4))\n")],
     needs='times that differ by less than a tenth of a millisecond', breaks='Functions with short times are not ordered by them.',
     demo='''
from profiling.stats import FrozenStatistics
from profiling.sortkeys import by_deep_time
root = FrozenStatistics(children=[FrozenStatistics('a', deep_time=1e-5), FrozenStatistics('b', deep_time=2e-5)])
assert [s.name for s in root.sorted(by_deep_time)] == ['b', 'a']
'''),
dict(id='c12-own-hits', property='C12',
     edits=[('profiling/sortkeys.py', "by_own_hits = SortKey(lambda stat: -stat.own_hits)\n",
             "by_own_hits = SortKey(lambda stat: -stat.own_hits or -stat.deep_hits)\n")],
     needs='a function without hits of its own but with more below it than a sibling has', breaks='A function without own hits comes before one that has some.',
     demo='''
from profiling.stats import FrozenStatistics
from profiling.sortkeys import by_own_hits
a = FrozenStatistics('a', own_hits=0, children=[FrozenStatistics('c', own_hits=5)])
b = FrozenStatistics('b', own_hits=1)
assert [s.name for s in FrozenStatistics(children=[a, b]).sorted(by_own_hits)] == ['b', 'a']
'''),
]
