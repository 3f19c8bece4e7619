import json, os

CFG = ('SPECIFICATION %s\nCONSTANTS Code = {%s}\n FnOf <- %s\n MaxDepth = %d\n MaxHits = %d\n MaxTime = %d\nCHECK_DEADLOCK FALSE\n')
INV = 'INVARIANTS Tree SameDomain Descendants VoidTime FlatTotals RowPerNode\nPROPERTY Elsewhere\n'
NCODES = 14
KEYS = ['by_name', 'by_module', 'by_function', 'by_deep_hits', 'by_own_hits', 'by_deep_time', 'by_own_time',
        'by_deep_time_per_call', 'by_own_time_per_call']


def nums(n):
    return ', '.join(str(i + 1) for i in range(n))


def queries(c, ops):
    """Adds the queries of the property to a program."""
    res = []
    for i, op in enumerate(ops):
        res.append(op)
        if c.pid == 'C09':
            res.append(['show'])
            if i % 4 == 0:
                res.append(['get', c.rng.randrange(1000), c.rng.randint(1, NCODES)])
        elif c.pid == 'C10' and (i % 6 == 0 or i == len(ops) - 1):
            res.append(['pickle', c.rng.randint(0, 5), c.rng.random() < .3])
        elif c.pid == 'C11' and i % 4 == 0:
            res.append(['flatten', 0 if c.rng.random() < .4 else c.rng.randrange(1000), c.rng.random() < .3])
        elif c.pid == 'C12' and i % 2 == 0:
            res.append(['sort', 0 if c.rng.random() < .5 else c.rng.randrange(1000), c.rng.choice(KEYS), c.rng.random() < .4,
                        c.rng.choice(['nested', 'frozen', 'flat', 'frozenflat'])])
    return res


def run(c):
    bounds = c.pick([(1, 3, 1, 1), (2, 1, 1, 2)], [(1, 4, 1, 2), (2, 2, 1, 1), (3, 1, 1, 1)])
    for n, d, h, t in bounds:
        c.model('StatsTree', CFG % ('Spec', nums(n), 'Mod2', d, h, t) + INV, timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for n, depth, length, num in ((2, 3, 25, c.pick(100, 1500)), (NCODES, 2, 40, c.pick(60, 1000)), (NCODES, 5, 80, c.pick(40, 800))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=length), f)
        progs = c.simulate('StatsTreeGen', CFG % ('GSpec', nums(n), 'Mod2', depth, 0, 0) + 'ACTION_CONSTRAINT Dump\n',
                           num, length, env={'MODE': mode}, timeout=800)
        if n == 2:   # two codes of the table, sometimes of the same function
            for ops in progs:
                a = c.rng.sample(range(1, NCODES + 1), 2)
                if c.rng.random() < .3:
                    a = c.rng.choice([[7, 12], [1, 13], [7, 14], [12, 14]])
                for op in ops:
                    op[1] = [a[x - 1] for x in op[1]]
                    if op[0] in ('add', 'ensure', 'remove', 'discard', 'exclude'):
                        op[2] = a[op[2] - 1]
        scen += [queries(c, ops) for ops in progs]
        c.notes.append('%d programs of %d operations' % (len(progs), length))
    if c.pid in ('C10', 'C11', 'C09'):
        # deeper than the recursion limit
        for n in c.pick([1900], [1100, 1900, 4000]):   # (PyPy ends a recursion later than its limit says)
            scen.append([['chain', [0] + [c.rng.randint(1, NCODES) for _ in range(n)], [c.rng.randint(0, 3) for _ in range(n + 1)],
                          [c.rng.randint(0, 50) for _ in range(n + 1)], c.pid, proto] for proto in (c.pick([4], [0, 1, 2, 3, 4, 5]) if c.pid == 'C10' else [2])])
    traces = c.batches('statstree.py', scen, timeout=c.pick(300, 1500))
    c.sample(dict(ops=scen[0], last=traces[0][-1]))
    c.notes.append('%d results compared' % sum(e['op'] in ('show', 'pickle', 'flatten', 'sort', 'get', 'chain') for t in traces for e in t))
    for i, clause, step in c.validate('TraceStatsTree', traces, const=None, timeout=c.pick(300, 1500), extra_cfg=
                                      'CONSTANTS Code = {%s}\n FnOf <- TraceFn\n MaxDepth = 0\n MaxHits = 0\n MaxTime = 0\n' % nums(NCODES)):
        c.violation(clause, dict(ops=scen[i], event=traces[i][step - 1], step=step))
