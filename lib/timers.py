import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Ctx = {%s}\n Gr = {%s}\n MaxTime = %d\n MaxSess = %d\nCHECK_DEADLOCK FALSE\n'
INV = 'CONSTRAINT Bound\nINVARIANTS Exact CurrentExact\nPROPERTIES Independent NeverBackwards\n'


def q(xs):
    return ', '.join('"%s"' % x for x in xs)


def run(c):
    for ctx, gr, t, s in c.pick([('xy', '', 5, 0), ('', 'ab', 3, 2)], [('xyz', '', 7, 0), ('', 'ab', 6, 3), ('', 'abc', 3, 2)]):
        c.model('Timers', CFG % ('Spec', q(ctx), q(gr), t, s) + INV, timeout=850)
    scen = []
    mode = os.path.join(c.scratch, 'mode.json')
    for ctx, gr, depth, num in (('xyz', '', 30, c.pick(80, 1500)), ('', 'ab', 25, c.pick(200, 3000)), ('', 'abcd', 60, c.pick(200, 3000)),
                                ('', 'abcd', 250, c.pick(16, 400))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('TimersGen', CFG % ('GSpec', q(ctx), q(gr), 0, 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            # readings around everything that happens
            full, reads = [], c.rng.random() < .6
            for op in ops:
                if reads and gr and op[0] not in ('gread', 'start'):
                    full.append(['gread'])
                full.append(op)
                if reads and gr and op[0] not in ('tick', 'gread'):
                    full.append(['gread'])
            scen.append(dict(ops=full, clock=c.rng.choice([0, 0, 7, 1000]), detect=c.rng.random() < .5, throw=c.rng.random() < .3))
    traces = c.batches('timers.py', scen, timeout=c.pick(200, 1500))
    c.notes.append('%d programs, %d readings' % (len(scen), sum(e['op'] in ('read', 'gread') for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0][:20]))
    for i, clause, step in c.validate('TraceTimers', traces, const={'Ctx': '{%s}' % q('xyz'), 'Gr': '{%s}' % q('abcd'), 'MaxTime': 0, 'MaxSess': 0},
                                      timeout=c.pick(300, 1500)):
        c.violation(clause, dict(scenario=scen[i], events=traces[i][:step], step=step))
