SEEDS = [
dict(id='c03-same-call-once', property='C03',
     edits=[('profiling/utils.py', """    defer = lambda f, *a, **k: deferred.append((f, a, k))
""", """    def defer(f, *a, **k):
        if not deferred or deferred[-1] != (f, a, k):
            deferred.append((f, a, k))
""")],
     needs='the very same call registered twice in a row', breaks='A call that was registered twice in a row is executed only once.',
     demo='''
from profiling.utils import deferral
log = []
with deferral() as defer:
    defer(log.append, 1)
    defer(log.append, 1)
assert log == [1, 1], log
'''),
dict(id='c03-only-exceptions', property='C03',
     edits=[('profiling/utils.py', """        yield defer
    finally:
        call_deferred()
""", """        yield defer
    except Exception:
        call_deferred()
        raise
    else:
        call_deferred()
""")],
     needs='a block left by an exception that is no Exception (SystemExit, KeyboardInterrupt, GeneratorExit of a generator that is closed)',
     breaks='The deferred calls are not executed when the block is left by such an exception.',
     demo='''
from profiling.utils import deferral
log = []
try:
    with deferral() as defer:
        defer(log.append, 1)
        raise SystemExit
except SystemExit:
    pass
assert log == [1], log
'''),
dict(id='c04-parent-cache', property='C04',
     edits=[('profiling/tracing/__init__.py', """        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
""", """        if not frames:
            parent_stats = self.stats
        elif frames[-1] in self._parents:
            # the same caller calls again.
            parent_stats = self._parents[frames[-1]]
        else:
            parent_stats = self.stats
            for f in frames:
                parent_stats = parent_stats.ensure_child(f.f_code, void)
            self._parents[frames[-1]] = parent_stats
"""), ('profiling/tracing/__init__.py', """            self._times_entered.clear()
            self.overhead = 0.0
""", """            self._times_entered.clear()
            self._parents = {}
            self.overhead = 0.0
"""), ('profiling/tracing/__init__.py', """    overhead = 0.0

    #:""", """    overhead = 0.0

    _parents = {}

    #:""")],
     needs='a generator that makes a call, is suspended and then resumed on another path, and makes a call again',
     breaks='Calls made by a generator are recorded below the path it was resumed on before.',
     demo='''
import sys
from profiling.tracing import TracingProfiler

def leaf():
    pass

def gen():
    while True:
        leaf()
        yield

g = gen()

def one():
    next(g)

def two():
    next(g)

p = TracingProfiler(base_frame=sys._getframe())
p.start()
one()
two()
p.stop()
def paths(stats, path=()):
    for s in stats:
        yield path + (s.name,), s.own_hits
        for x in paths(s, path + (s.name,)):
            yield x
hits = dict(paths(p.stats))
assert hits.get(('two', 'gen', 'leaf')) == 1, hits
'''),
dict(id='c04-generator-resumption', property='C04',
     edits=[('profiling/tracing/__init__.py', """        self._times_entered[(code, frame_key)] = time
        stats.own_hits += 1
""", """        if (code, frame_key) not in self._times_entered:
            stats.own_hits += 1
        self._times_entered[(code, frame_key)] = time
"""), ('profiling/tracing/__init__.py', """            time_entered = self._times_entered.pop((code, frame_key))
""", """            time_entered = self._times_entered[(code, frame_key)]
            if not code.co_flags & 0x20:
                del self._times_entered[(code, frame_key)]
""")],
     needs='a generator that is resumed several times',
     breaks='Resumptions of a generator are not counted.',
     demo='''
import sys
from profiling.tracing import TracingProfiler

def gen():
    yield 1
    yield 2
    yield 3

p = TracingProfiler(base_frame=sys._getframe())
g = gen()
p.start()
list(g)
p.stop()
hits = dict((s.name, s.own_hits) for s in p.stats)
assert hits.get('gen') == 4, hits
'''),
dict(id='c05-times-not-cleared', property='C05',
     edits=[('profiling/tracing/__init__.py', """            self._times_entered.clear()
            self.overhead = 0.0
""", """            self.overhead = 0.0
""")],
     needs='a call that is entered in one session and left in the next one, while another call on the same path (below the inner base) was entered in the second session',
     breaks='The time of a call entered before the profiler was started again is counted in the new session.',
     demo='''
import time
clock = [0]
time.clock = lambda: clock[0]
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

class T(Timer):
    def __call__(self):
        return clock[0]

def f(k):
    k()

def b(k):
    f(k)

def noop():
    pass

def restart():
    p.stop()
    clock[0] += 100
    p.start()
    b(noop)

p = TracingProfiler(base_code=b.__code__, timer=T())
p.start()
b(restart)
p.stop()
from profiling.stats import spread_stats
for s in spread_stats(p.stats):
    assert s.deep_time == 0, (s.name, s.deep_time)
'''),
dict(id='c05-recursion', property='C05',
     edits=[('profiling/tracing/__init__.py', """        frame_key = id(frame)
        # if c:""", """        frame_key = parent_stats
        # if c:""")],
     needs='the same path executed in two threads at once',
     breaks='Calls on the same path in two threads share one entry time: the time of one of them is lost or wrong.',
     demo='''
import sys, threading, time
clock = [0]
time.clock = lambda: clock[0]
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

class T(Timer):
    def __call__(self):
        return clock[0]

one, two, done = [threading.Lock() for x in range(3)]
for l in (one, two, done):
    l.acquire()

def f(first):
    if first:
        clock[0] += 1
        two.release()
        one.acquire()
        clock[0] += 1
        done.release()
    else:
        clock[0] += 10
        one.release()
        done.acquire()

def thread(first):
    if not first:
        two.acquire()
    f(first)

p = TracingProfiler(base_code=thread.__code__, timer=T())
p.start()
ts = [threading.Thread(target=thread, args=(x,)) for x in (True, False)]
[t.start() for t in ts]
[t.join() for t in ts]
p.stop()
from profiling.stats import spread_stats
times = dict((s.name, s.deep_time) for s in spread_stats(p.stats))
assert times['f'] == 12 + 11, times
'''),
dict(id='c06-signal-in-ignored', property='C06',
     edits=[('profiling/sampling/samplers.py', "        handle = functools.partial(self.handle_signal, weak_profiler)\n", """        def handle(signum, frame):
            if getattr(frame, 'f_code', None) not in weak_profiler.ignored_codes:
                self.handle_signal(weak_profiler, signum, frame)
""")],
     needs='a signal that interrupts ignored code',
     breaks='A sample taken by the signal inside ignored code is dropped instead of counting for the caller.',
     demo='''
import os, signal, sys
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler

def ignored():
    os.kill(os.getpid(), signal.SIGPROF)
    for x in range(10):
        len('')

def f():
    ignored()

p = SamplingProfiler(base_frame=sys._getframe(), ignored_codes=[ignored.__code__], sampler=ItimerSampler(1000.))
p.start()
f()
p.stop()
assert p.stats.deep_hits == 1, p.stats
'''),
dict(id='c06-recursive-sample', property='C06',
     edits=[('profiling/sampling/__init__.py', """        stats.own_hits += 1

    def run(self):""", """        if stats is not parent_stats or not stats.own_hits:
            stats.own_hits += 1
        else:
            parent_stats.own_hits = max(stats.own_hits, len(frames))

    def run(self):""")],
     needs='several samples whose frames are all ignored or that hit the base itself',
     breaks='Samples that count for the root are only counted once.',
     demo='''
import sys
from profiling.sampling import SamplingProfiler

def f(p):
    p.sample(sys._getframe())
    p.sample(sys._getframe())

p = SamplingProfiler(base_frame=sys._getframe(), ignored_codes=[f.__code__])
f(p)
f(p)
assert p.stats.deep_hits == 4, p.stats
'''),
]
