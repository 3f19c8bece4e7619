import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Families = {"unix", "tcp", "given"}\n Delay = 1\n MaxMsg = %d\nCHECK_DEADLOCK FALSE\n'


def run(c):
    c.model('Client', CFG % ('Spec', c.pick(2, 5)) + 'CONSTRAINT Bound\nINVARIANTS NeverGivesUp ActiveWhileOpen\n'
            'PROPERTIES KeepsShown DelaysWhenRefused\n', timeout=850)
    c.model('Client', CFG % ('Spec', c.pick(1, 2)) + 'CONSTRAINT Bound\nPROPERTIES Reconnects\n', timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for depth, num in ((10, c.pick(240, 3000)), (40, c.pick(160, 3000)), (120, c.pick(40, 600))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('ClientGen', CFG % ('GSpec', 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            scen.append(dict(ops=ops, seed=c.rng.randrange(10 ** 6), proto=c.rng.choice([0, 2, 3])))
    traces = c.batches('client.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d histories, %d attempts, %d messages' % (len(scen), sum(e['op'] == 'fire' for t in traces for e in t), sum(e['op'] == 'send' for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0][:6]))
    for i, clause, step in c.validate('TraceClient', traces, const={'Families': '{}', 'Delay': 1, 'MaxMsg': 0}):
        c.violation(clause, dict(scenario=scen[i], trace=traces[i][:step]))
