import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS M = 1\n S = %d\n MaxBody = %d\n MaxSent = %d\nCHECK_DEADLOCK FALSE\n'


def run(c):
    c.model('Wire', CFG % (('Spec', 2) + c.pick((2, 2), (4, 3))) + 'CONSTRAINT Bound\nINVARIANTS Complete Aligned\n', timeout=850)
    c.model('Wire', CFG % (('Spec', 1) + c.pick((1, 1), (2, 2))) + 'CONSTRAINT Bound\nPROPERTY Received\n', timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for depth, num in ((6, c.pick(160, 2000)), (16, c.pick(120, 2000)), (60, c.pick(40, 600))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('WireGen', CFG % ('GSpec', 4, 0, 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            scen.append(dict(ops=ops, seed=c.rng.randrange(10 ** 6), sock=c.rng.choice(['unix', 'tcp']), blocking=c.rng.random() < .35,
                             cut=c.rng.random() < .4, reset=c.rng.random() < .15, delays=[c.rng.choice([0, 0, 1, 3]) for _ in range(5)]))
    traces = c.batches('wire.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d streams, %d messages received' % (len(scen), sum(e['op'] == 'recv' for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0]))
    for i, clause, step in c.validate('TraceWire', traces, const={'M': 1, 'S': 4, 'MaxBody': 0, 'MaxSent': 0}):
        c.violation(clause, dict(scenario=scen[i], trace=traces[i], step=step))
