INVS = 'ExecutedOnce AllExecuted NothingEarly OwnBlockOnly Reverse'


def run(c):
    c.model('Deferral', 'SPECIFICATION Spec\nCONSTANTS Block = {1, 2}\n MaxReg = %d\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % (
        c.pick(3, 4), INVS), timeout=800)
    scen = []
    for blocks, n, limit in (('{1}', c.pick(3, 5), None), ('{1, 2}', c.pick(4, 5), c.pick(300, 4000))):
        g = c.graph('DeferralGen', 'SPECIFICATION GSpec\nCONSTANTS Block = %s\n MaxReg = %d\nVIEW St\nACTION_CONSTRAINT Dump\n'
                    'CONSTRAINT InitDump\nCHECK_DEADLOCK FALSE\n' % (blocks, n), timeout=800)
        paths = g.cover(c.rng, maxlen=40, limit=limit)
        c.notes.append('blocks %s: %d states, %d edges, %d uncovered by %d paths' % (blocks, len(g.edges), g.nedges, g.uncovered, len(paths)))
        scen += [ops for _, ops in paths]
    # larger blocks: more registrations than the graph has
    kinds = ['ok', 'fail', 'regok', 'regfail', 'failreg']
    for _ in range(c.pick(100, 2000)):
        ops = [['reg', c.rng.choice([1, 2]), c.rng.choice(kinds + ['ok'] * 3 + ['same'] * 2)] for _ in range(c.rng.randint(4, 30))]
        for b in (1, 2):  # the first of a block is not the same as another
            first = next((o for o in ops if o[1] == b), None)
            if first and first[2] == 'same':
                first[2] = 'ok'
        ends = [['end', b, c.rng.choice(['none', 'error', 'interrupt', 'close'])] for b in c.rng.sample([1, 2], 2)]
        pos = c.rng.randint(0, len(ops))
        ops = ops[:pos] + [ends[0]] + [o for o in ops[pos:] if o[1] != ends[0][1]] + [ends[1]]
        scen.append(ops)
    traces = c.batches('deferral.py', scen, timeout=c.pick(120, 600))
    c.sample(dict(ops=scen[0], trace=traces[0]))
    for i, clause, step in c.validate('TraceDeferral', traces, const={'Block': '{1, 2}', 'MaxReg': 0}):
        c.violation(clause, dict(ops=scen[i], trace=traces[i][:step]))
