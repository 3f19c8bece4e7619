"""Performs operations on real statistics and shows what they show."""
import json, os, pickle, subprocess, sys
from hlib import main, REPO

SCRATCH = os.environ['VERIF_SCRATCH']
MODA = 'def alpha(): pass\ndef beta(): pass\n\ndef outer():\n    def alpha(): pass\n    return alpha\ninner = outer()\n'
MODB = 'def alpha(): pass\ndef gamma(): pass\nclass K(object):\n    def beta(self): pass\n'
LOOSE = 'def alpha(): pass\ndef zeta(): pass\nna\u00efve = lambda: 0\ndef na\u00efve(): pass\n'


def codes():
    """Codes of functions: in modules and without one, with equal names, the
    same function compiled twice, module codes without a name."""
    for name, src in (('moda', MODA), ('modb', MODB)):
        with open(os.path.join(SCRATCH, name + '.py'), 'w') as f:
            f.write(src)
    sys.path.insert(0, SCRATCH)
    import moda, modb
    sys.path.pop(0)

    def loose(src, name='<loose>'):
        ns = {}
        code = compile(src, name, 'exec')
        exec(code, ns)
        return code, ns['alpha'].__code__, ns['zeta'].__code__, ns['na\u00efve'].__code__
    other = lambda src: src.replace('alpha(): pass', 'alpha(): return 1')   # not equal, but of the same function
    l1, l2 = loose(LOOSE), loose(other(LOOSE))
    again = {}
    exec(compile(other(MODA), moda.__file__, 'exec'), again)
    with open(moda.__file__) as f:
        modcode = compile(f.read(), moda.__file__, 'exec')
    return [moda.alpha.__code__, moda.beta.__code__, modb.alpha.__code__, modb.gamma.__code__, modb.K.beta.__code__,
            moda.inner.__code__, l1[1], l1[2], l1[3], l1[0], modcode, l2[1], again['alpha'].__code__,
            loose(LOOSE, '<lax>')[1]]


def key(s):
    return [s.name, s.filename, s.lineno, s.module]


def integer(x):
    return int(x) if x == int(x) else -1


class Shower(object):
    """Shows statistics as numbers; times in units of `scale`."""
    def __init__(self, table):
        self.scale = 1.
        self.index = {}
        for k in table:
            self.index.setdefault(json.dumps(k), len(self.index) + 1)

    def fn(self, s):
        k = key(s)
        if k == [None] * 4:
            return 0
        return self.index.get(json.dumps(k), -1)

    def time(self, x):
        return integer(x / self.scale)

    def times(self, x, s):
        """A figure per call, times the calls."""
        x /= self.scale
        return integer(round(x * s.own_hits, 6) if s.own_hits else x)

    def row(self, s, depth):
        return [depth, self.fn(s), integer(s.own_hits), self.time(s.deep_time), self.time(s.own_time), integer(s.deep_hits),
                self.times(s.deep_time_per_call, s), self.times(s.own_time_per_call, s)]

    def rows(self, stats):
        res, todo = [], [(stats, 0)]
        while todo:
            s, depth = todo.pop()
            res.append(self.row(s, depth))
            todo.extend((x, depth + 1) for x in reversed(list(s)))
        return res

    def flat(self, s):
        return [self.fn(s), integer(s.own_hits), integer(s.deep_hits), self.time(s.own_time), self.time(s.deep_time),
                self.times(s.deep_time_per_call, s), self.times(s.own_time_per_call, s)]


def err(f, *a, **k):
    try:
        return f(*a, **k), ''
    except Exception as e:
        return None, type(e).__name__


def ranks(values):
    order = sorted(set(v for v in values if v is not None))
    return [0 if v is None else order.index(v) + 1 for v in values]


def run(payload):
    from profiling import sortkeys
    from profiling.profiler import Profiler
    from profiling.stats import FlatFrozenStatistics, RecordingStatistics, VoidRecordingStatistics
    cs = codes()
    assert len(set((x, x.co_filename) for x in cs)) == len(cs) > len(set(cs))
    table = [key(RecordingStatistics(c)) for c in cs]
    expected = expected_keys(cs)
    show = Shower(table)
    fns = [show.index[json.dumps(k)] for k in table]
    # ranks are per function number
    nf = max(fns)
    name, module = [None] * nf, [None] * nf
    for f, k in zip(fns, expected):
        name[f - 1], module[f - 1] = k[0], k[3]
    head = dict(op='table', fn=fns, name=ranks(name), module=ranks(module))
    traces, pickles = [], []
    for n, ops in enumerate(payload):
        # seconds, or times far below a millisecond or above an hour
        show.scale = [1., 2. ** -20, 2. ** -10, 2. ** 12][n % 4]
        profiler = Profiler()
        root = profiler.stats
        trace = [head]
        nodes = lambda: list(walk(root, cs))
        for op in ops:
            k = op[0]
            ev = dict(op=k)
            if k == 'chain':
                # the root has code 0
                root.clear()
                node = root
                for c, h, t in zip(op[1], op[2], op[3]):
                    if c:
                        node = node.ensure_child(cs[c - 1])
                    node.own_hits += h
                    node.deep_time += t * show.scale
                ev.update(codes=op[1], hits=op[2], times=op[3], err='', rows=show.rows(root), loaded=[], flat=[])
                if op[4] == 'C10':
                    data, ev['err'] = err(pickle.dumps, root, op[5])
                    copy, ev['err'] = err(lambda: pickle.loads(data))
                    ev['loaded'] = show.rows(copy) if copy is not None else []
                elif op[4] == 'C11':
                    ev['flat'] = [show.flat(s) for s in FlatFrozenStatistics.flatten(root)]
                root.clear()
                trace.append(ev)
                continue
            if k in ('show', 'pickle', 'flatten', 'sort', 'get'):
                # queries address one of the nodes there are
                ns = nodes()
                if k == 'show':
                    ev['rows'] = show.rows(root)
                elif k == 'pickle':
                    ev['proto'] = op[1]
                    data, ev['err'] = err(pickle.dumps, root, op[1])
                    if op[2] and not ev['err']:
                        again, ev['err'] = err(pickle.loads, data)
                        if not ev['err']:
                            # a copy of the copy
                            data, ev['err'] = err(pickle.dumps, again, op[1])
                    ev['orig'] = show.rows(root)
                    ev['rows'] = []
                    if not ev['err']:
                        pickles.append((ev, show.scale, data))
                else:
                    p, node = ns[op[1] % len(ns)]
                    ev['p'] = p
                    if k == 'flatten':
                        if op[2]:
                            node = pickle.loads(pickle.dumps(node))
                        flat = FlatFrozenStatistics.flatten(node)
                        ev.update(rows=[show.flat(s) for s in flat], root=show.flat(flat), orig=show.rows(root))
                    elif k == 'sort':
                        __, __, skey, inv, shape = op
                        if shape == 'frozen' or shape == 'frozenflat':
                            node = pickle.loads(pickle.dumps(node))
                        if shape.endswith('flat'):
                            node = FlatFrozenStatistics.flatten(node)
                        order = getattr(sortkeys, skey)
                        res, ev['err'] = err(lambda: list(node.sorted(~order if inv else order)))
                        if not inv and skey == 'by_deep_time' and not ev['err']:
                            res, ev['err'] = err(lambda: list(node.sorted()))
                        ev.update(key=skey, inv=inv, flat=shape.endswith('flat'), rows=[show.row(s, 0) for s in res or ()])
                    else:
                        c = op[2]
                        ev['c'] = c
                        child, ev['err'] = err(node.get_child, cs[c - 1])
                        ev.update(len=len(node), contains=cs[c - 1] in node,
                                  row=show.row(child, len(p) + 1) if child is not None else [])
                trace.append(ev)
                continue
            node = root
            for c in op[1]:
                node = node.get_child(cs[c - 1])
            ev['p'] = op[1]
            kinds = dict(rec=RecordingStatistics, void=VoidRecordingStatistics)
            if k in ('add', 'ensure'):
                ev['c'], ev['kind'] = op[2], op[3]
                code = cs[op[2] - 1]
                if k == 'add':
                    cls = type(node) if op[3] == 'default' else kinds[op[3]]
                    __, ev['err'] = err(node.add_child, code, cls(code))
                else:
                    args = () if op[3] == 'default' else (kinds[op[3]],)
                    child, ev['err'] = err(node.ensure_child, code, *args)
                    ev['same'] = err(node.get_child, code)[0] is child
            elif k == 'remove':
                ev['c'] = op[2]
                __, ev['err'] = err(node.remove_child, cs[op[2] - 1])
            elif k == 'discard':
                ev['c'] = op[2]
                __, ev['err'] = err(node.discard_child, cs[op[2] - 1])
            elif k == 'exclude':
                ev['c'] = op[2]
                __, ev['err'] = err(profiler.exclude_code, cs[op[2] - 1])
            elif k == 'clear':
                __, ev['err'] = err(node.clear)
            elif k == 'record':
                ev['h'], ev['t'] = op[2], op[3]

                def record():
                    node.own_hits += op[2]
                    node.deep_time += op[3] * show.scale
                __, ev['err'] = err(record)
            trace.append(ev)
        traces.append(trace)
    if table != expected:
        # recorded statistics do not tell the function: nothing else is comparable.
        for i, (a, b) in enumerate(zip(table, expected)):
            if a != b:
                raise RuntimeError('members of code %r: %r instead of %r' % (cs[i], a, b))
    # loaded in another process, without the code objects
    if pickles:
        load_all(pickles, table)
    return traces


def expected_keys(cs):
    mods = {os.path.join(SCRATCH, m + '.py'): m for m in ('moda', 'modb')}
    return [[None if c.co_name == '<module>' else c.co_name, c.co_filename, c.co_firstlineno, mods.get(c.co_filename)] for c in cs]


def walk(root, cs):
    """(path, node) of all nodes in order."""
    todo = [([], root)]
    res = []
    while todo:
        p, s = todo.pop()
        res.append((p, s))
        kids = []
        for x in s:
            # by identity of the code
            for i, c in enumerate(cs):
                if x.code is c:
                    kids.append((p + [i + 1], x))
        todo.extend(reversed(kids))
    return res


LOADER = '''
import json, pickle, sys
sys.path.insert(0, %r)
from statstree import Shower
inp = pickle.load(open(sys.argv[1], 'rb'))
show = Shower(inp[0])
res = []
for scale, data in inp[1]:
    show.scale = scale
    try:
        res.append(['', show.rows(pickle.loads(data))])
    except Exception as e:
        res.append([type(e).__name__, []])
json.dump(res, open(sys.argv[2], 'w'))
'''


def load_all(pickles, table):
    a, b = os.path.join(SCRATCH, 'pickles'), os.path.join(SCRATCH, 'loaded')
    with open(a, 'wb') as f:
        pickle.dump((table, [x[1:] for x in pickles]), f)
    for m in ('moda', 'modb'):
        os.remove(os.path.join(SCRATCH, m + '.py'))
    subprocess.check_call([sys.executable, '--jit', 'off', '-W', 'ignore', '-c', LOADER % os.path.dirname(os.path.abspath(__file__)), a, b])
    with open(b) as f:
        for (ev, _, _), (e, rows) in zip(pickles, json.load(f)):
            ev['err'], ev['rows'] = e, rows


if __name__ == '__main__':
    main(run)
