import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Client = {%s}\n MaxRes = %d\nCHECK_DEADLOCK FALSE\n'
INV = ('CONSTRAINT Bound\nINVARIANTS WellFormed InOrder UpToDate ProfilesInCycles\n'
       'PROPERTIES NothingAfterGone NoneMissed OneResultPerCycle StartsForClients\n')


def nums(n):
    return ', '.join(str(i + 1) for i in range(n))


def run(c):
    for n, r in c.pick([(2, 3)], [(2, 5), (3, 3)]):
        c.model('Server', CFG % ('Spec', nums(n), r) + INV, timeout=850)
    if c.pid in ('C18', 'C19'):
        for n, r in c.pick([(2, 1)], [(2, 3)]):
            c.model('Server', CFG % ('Spec', nums(n), r) + 'CONSTRAINT Bound\nPROPERTIES EndsUnwatched Watched\n', timeout=850)
    schedules(c)
    real(c)


def schedules(c):
    """The base class, in the schedules of the specification."""
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for depth, num, n in ((10, c.pick(240, 3000), 2), (30, c.pick(240, 3000), 3), (90, c.pick(80, 1600), 6)):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('ServerGen', CFG % ('GSpec', nums(n), 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            nested = c.rng.random() < .3
            scen.append(dict(ops=ops, seed=c.rng.randrange(10 ** 6), nested=nested, short=nested and c.rng.random() < .7, preempt=not nested and c.rng.random() < .7,
                             filler=c.rng.choice([0, 10, 3000]), wraps=c.rng.choice([0, 0, 1, 2]), proto=c.rng.choice([None, None, 0, 1, 2, 3])))
    traces = c.batches('server.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d schedules, %d messages, %d failures' % (len(scen), sum(e['op'] == 'msg' for t in traces for e in t), sum(e['op'] == 'fail' for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0][:12]))
    for i, clause, step in c.validate('TraceServer', traces, const={'Client': '{}', 'MaxRes': 0}):
        c.violation(clause, dict(scenario=scen[i], trace=traces[i][:step]))


def real(c):
    """The server implementations, with real connections."""
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for depth, num, n in ((8, c.pick(72, 500), 2), (25, c.pick(48, 500), 4)):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('ServerGen', CFG % ('GSpec', nums(n), 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            kind = ['select', 'gevent', 'asyncio'][len(scen) % 3]
            scen.append(dict(ops=ops, seed=c.rng.randrange(10 ** 6), kind=kind, sock=c.rng.choice(['unix', 'tcp']),
                             interval=c.rng.choice([.005, .02, .05]), filler=c.rng.choice([0, 100, 5000, 300000, 700000]),
                             wraps=c.rng.choice([0, 0, 1]), proto=c.rng.choice([None, None, 0, 2]), faults=kind == 'select' and c.rng.random() < .3))
    traces = c.batches('realserver.py', scen, timeout=c.pick(400, 1500))
    c.notes.append('%d real servers, %d clients' % (len(scen), sum(e['op'] == 'client' for t in traces for e in t)))
    for i, clause, step in c.validate('TraceRealServer', traces, const={'Client': '{}', 'MaxRes': 0}):
        c.violation('%s server: %s' % (scen[i]['kind'], clause), dict(scenario=scen[i], trace=traces[i], step=step))
