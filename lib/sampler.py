CONST = 'CONSTANTS Thr = {%s}\n Interval = %d\n MaxTime = %d\n MaxThreads = %d\n'
THR = ['T1', 'T2', 'T3']


def q(xs):
    return ', '.join('"%s"' % x for x in xs)


def run(c):
    for n, iv, mt, mth in c.pick([(1, 2, 4, 2)], [(1, 2, 5, 3), (1, 3, 5, 2), (2, 2, 3, 2)]):
        c.model('Sampler', 'SPECIFICATION Spec\n' + CONST % (q(THR[:n]), iv, mt, mth) +
                'CONSTRAINT Short\nINVARIANTS OwnHistory NotTooOften\nPROPERTY Independent\nCHECK_DEADLOCK FALSE\n', timeout=800)
    scen = []
    intervals = c.pick([3, 10], [1, 2, 3, 10, 100])
    for iv in intervals:
        progs = c.simulate('SamplerGen', 'SPECIFICATION GSpec\n' + CONST % (q(THR), iv, 0, 0) +
                           'ACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n', c.pick(60, 600), 60)
        scen += [dict(interval=iv, ops=ops) for ops in progs]
    # the same with more than 10000 samples before and within: behaviours of the specification again
    for _ in range(c.pick(8, 60)):
        iv = c.rng.choice(intervals)
        ops, alive = [['start']], set()
        for t in THR[:2]:
            ops.append(['spawn', t, 0])
            alive.add(t)
            ops.append(['event', t, c.rng.choice([iv - 1, iv, 2 * iv]), 'py'])
        ops.append(['event', 'M', iv + 1, 'py'])
        for n in (9990 - c.rng.randint(0, 20), 30, 10000):
            ops.append(['burst', c.rng.choice(['M'] + sorted(alive)), iv, n])
            for _ in range(6):
                t = c.rng.choice(['M', 'T1', 'T2', 'T3'])
                k = c.rng.random()
                if t != 'M' and t not in alive:
                    ops.append(['spawn', t, 0])
                    alive.add(t)
                elif t != 'M' and k < .2:
                    ops.append(['end', t])
                    alive.discard(t)
                else:
                    ops.append(['event', t, c.rng.choice([0, 1, iv - 1, iv]), 'py'])
        scen.append(dict(interval=iv, ops=ops))
    # a thread ends after work and a new one (with its identifier) goes on at about that CPU time
    for _ in range(c.pick(40, 400)):
        iv = c.rng.choice(intervals)
        ops = [['start']]
        for _ in range(c.rng.randint(2, 5)):
            t = c.rng.choice(THR)
            ops.append(['spawn', t, c.rng.choice([0, 1, iv, 2 * iv, 2 * iv + 1, 3 * iv])])
            for _ in range(c.rng.randint(1, 4)):
                ops.append(['event', t, c.rng.choice([iv - 1, iv, iv + 1, 2 * iv, 2 * iv + 1, 5 * iv]), 'py'])
            ops.append(['end', t])
        scen.append(dict(interval=iv, ops=ops))
    for s in scen:   # a unit of time is from below a microsecond to minutes
        s['scale'] = c.rng.choice([0, -4, -10, -14, -20, 8])
    outs = c.batches('sampler.py', scen, timeout=c.pick(200, 1500))
    traces = [o['trace'] for o in outs]
    c.notes.append('%d scenarios, %d samples, %d threads with the identifier of a finished one' % (
        len(scen), sum(e['samples'] for t in traces for e in t), sum(o['reused'] for o in outs)))
    c.sample(dict(scenario=scen[0], trace=traces[0][:10]))
    for iv in intervals:
        idx = [i for i, s in enumerate(scen) if s['interval'] == iv]
        for i, clause, step in c.validate('TraceSampler', [traces[i] for i in idx],
                                          const={'Thr': '{%s}' % q(THR), 'Interval': iv, 'MaxTime': 0, 'MaxThreads': 0}):
            c.violation(clause, dict(scenario=scen[idx[i]], events=traces[idx[i]][:step][-20:], step=step))
