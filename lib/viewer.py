"""C22-C24: what the viewer shows, how it is navigated, what its table lists."""
import json, os

PROPS = {'C22': 'PROPERTIES PausedShows LatestShows PauseKeeps\n',
         'C23': 'INVARIANTS FocusExists OpenExists\nPROPERTIES ExpandedStay FocusKept HotspotOpen\n',
         'C24': 'INVARIANTS RowsListed TopLevel Sorted\nPROPERTIES Toggles\n'}
MODEL = 'SPECIFICATION Spec\nCONSTANTS KindsUsed = %s\nCONSTRAINT Less\nCHECK_DEADLOCK FALSE\n'

# name, file, line, module: names, modules and files in common, and none.
FNS = [['alpha', '/a/x.py', 10, 'm1'], ['alpha', '/a/y.py', 10, 'm2'], ['alpha', '/a/x.py', 30, 'm1'], ['beta', '/a/z.py', 5, ''],
       ['Gamma', '/a/x.py', 10, 'm1'], ['<lambda>', '/a/x.py', 10, 'm1'], ['delta', '/b/x.py', 7, 'm0']]
MANY = FNS + [['f%02d' % i, '/a/f%d.py' % (i % 3), i, 'mod%d' % (i % 5)] for i in range(150)]


def ranks(fns):
    keys = [(f[3] or '', f[0]) for f in fns]
    return [sorted(set(keys)).index(k) + 1 for k in keys]


def grow(rng, size, fns, tree=None):
    """A tree of calls as path -> [hits, own time]; children of the given one
    are kept, dropped or joined by others."""
    tree = {p: list(x) for p, x in (tree or {(): [0, 0]}).items()}
    for p in list(tree):
        if p in tree and p and rng.random() < .12:
            for q in list(tree):
                if q[:len(p)] == p:
                    del tree[q]
    if fns is MANY and len(tree) < size:   # a function that calls many others
        p = rng.choice([q for q in sorted(tree) if len(q) < 2])
        for fn in rng.sample(range(1, len(fns) + 1), rng.randint(60, 130)):
            tree.setdefault(p + (fn,), [0, 0])
    for _ in range(3 * size):
        if len(tree) > size:
            break
        p = rng.choice(sorted(tree, key=lambda q: (len(q), q)))
        if len(p) < 7:
            fn = rng.choice(p) if p and rng.random() < .15 else rng.randint(1, len(fns))
            tree.setdefault(p + (fn,), [0, 0])
    wide = rng.choice([3, 3, 10, 60, 150] if size < 50 else [3, 10, 30])
    for p in tree:
        tree[p] = [rng.choice([0, 1, 1, 2, rng.randint(0, 9)]) if p or rng.random() < .2 else 0, rng.randint(0, wide) if p else 0]
    if rng.random() < .15 and len(tree) > 1:
        tree[rng.choice(sorted(tree)[1:])][0] = rng.randint(900, 1600)
    return tree


def nodes(rng, tree):
    """As listed: parents first, children in any order."""
    deep = {}
    for p in sorted(tree, key=len, reverse=True):
        deep[p] = tree[p][1] + sum(deep[q] for q in tree if len(q) == len(p) + 1 and q[:-1] == p)
    odd = rng.random() < .1   # times that do not add up, as of threads
    order = sorted(tree, key=lambda p: (len(p), rng.random()))
    return [dict(p=list(p), h=tree[p][0], t=deep[p] // 2 if odd and p and rng.random() < .3 else deep[p]) for p in order]


def group(rng, size, count, fns):
    tree, results, meta = None, [], []
    for i in range(count):
        tree = grow(rng, size, fns, tree if rng.random() < .8 else None)
        results.append(nodes(rng, tree))
        total = sum(x[1] for x in tree.values())
        cpu = rng.choice([0, total, total, total + 1, total * 3 // 2 + 1])
        cpu = max(cpu, total // 20)
        wall = rng.choice([0, cpu, cpu + 1, 2 * cpu, 7 * cpu + 3]) if cpu <= 2000 else cpu
        wall = 0 if wall == 0 else max(wall, 1)
        name = rng.choice(['', 'prog', 'r%d' % i, 'a title of result %d' % i])
        at = rng.choice([[], [i % 24, i, 59 - i]])
        text = ' '.join(([name] if name else []) + (['%02d:%02d:%02d' % tuple(at)] if at else []))
        meta.append(dict(cpu=cpu, wall=wall, name=name, at=at, title=text))
    return dict(results=results, meta=meta, rank=ranks(fns), fns=fns)


def run(c):
    kinds = ['{"base", "sampling"}', '{"tracing"}'] if c.tier == 'quick' else ['{"base", "sampling", "tracing"}']
    for k in kinds:
        c.model('Viewer', MODEL % k + PROPS[c.pid], timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for size, count, depth, num in ((5, 2, 30, c.pick(96, 900)), (12, 4, 60, c.pick(72, 800)), (22, 5, 80, c.pick(40, 500)), (150, 2, 14, c.pick(8, 60))):
        groups = [group(c.rng, size, count, MANY if size > 50 else FNS) for _ in range(4 if size > 50 else c.pick(24, 80))]
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth, groups=groups), f)
        for ops in c.simulate('ViewerGen', 'SPECIFICATION GSpec\nCONSTANTS KindsUsed = {}\nACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n',
                              num, depth, env={'MODE': mode}, timeout=800):
            scen.append(dict(groups[ops[0][1] - 1], ops=ops, scale=c.rng.choice([-20, -17, -10, -7, 0, 3]), seed=c.rng.randrange(10 ** 6)))
    traces = c.batches('viewer.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d sessions, %d steps, %d results given, up to %d rows' % (
        len(scen), sum(map(len, traces)), sum(e['op'] == 'result' for t in traces for e in t), max(len(e['rows']) for t in traces for e in t)))
    c.sample(dict(ops=scen[0]['ops'], trace=traces[0][1:4]))
    for i, clause, step in c.validate('TraceViewer', traces, const={'KindsUsed': '{}'}, timeout=850):
        c.violation(clause, dict(scenario=scen[i], trace=traces[i][:step]))
