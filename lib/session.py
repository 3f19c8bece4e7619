import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Fn = {%s}\n MaxDepth = %d\n MaxWork = %d\n MaxTime = %d\n MaxSess = %d\nCHECK_DEADLOCK FALSE\n'


def run(c):
    for fns, depth, work, t, s in c.pick([('1', 2, 2, 3, 2), ('1, 2', 2, 2, 2, 1)], [('1', 2, 3, 5, 3), ('1, 2', 2, 3, 3, 2)]):
        c.model('Session', CFG % ('Spec', fns, depth, work, t, s) + 'CONSTRAINT Bound\nINVARIANT CoversSession\nPROPERTY Stable\n', timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for kind in ('tracing', 'sampling'):
        for depth, num in ((25, c.pick(80, 1500)), (80, c.pick(24, 500))):
            with open(mode, 'w') as f:
                json.dump(dict(kind=kind, depth=depth), f)
            for ops in c.simulate('SessionGen', CFG % ('GSpec', '1, 2, 3', 3, 0, 0, 0) + 'ACTION_CONSTRAINT Dump\n', num, depth,
                                  env={'MODE': mode}, timeout=800):
                scen.append(dict(kind=kind, ops=ops + [['result'], ['tick', 3, 4], ['result']], clock=c.rng.choice([[0, 0], [17, 1000], [100000, 5]]),
                                 wrap=c.rng.choice([[], [], [], ['plain'], ['background'], ['background', 'plain']])))
    traces = c.batches('session.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d programs, %d results, files and viewers' % (
        len(scen), sum(e['op'] in ('result', 'file', 'view', 'viewcmd') for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0][-4:]))
    for i, clause, step in c.validate('TraceSession', traces, const={'Fn': '{1, 2, 3}', 'MaxDepth': 3, 'MaxWork': 0, 'MaxTime': 0, 'MaxSess': 0},
                                      timeout=c.pick(300, 1500)):
        c.violation(clause, dict(scenario=scen[i], event=traces[i][step - 1], step=step))
