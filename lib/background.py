import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS MaxReq = %d\nCHECK_DEADLOCK FALSE\n'


def run(c):
    c.model('Background', CFG % ('Spec', c.pick(6, 40)) + 'INVARIANTS TypeOK RefusedAsksNobody\nPROPERTIES TakesEffect Returns\n')
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    with open(mode, 'w') as f:
        json.dump(dict(depth=40), f)
    for ops in c.simulate('BackgroundGen', CFG % ('GSpec', 0) + 'ACTION_CONSTRAINT Dump\n', c.pick(64, 800), 40, env={'MODE': mode}, timeout=800):
        scen.append(dict(ops=ops, kind=c.rng.choice(['plain', 'tracing']), signum=c.rng.choice([None, None, 'SIGUSR1', 'SIGUSR2', 'SIGALRM', 'SIGHUP', 'SIGRTMIN', 'SIGWINCH']),
                         main=[c.rng.choice(['sleep', 'lock', 'compute', 'raise', 'sort']) for _ in range(5)],
                         pauses=[c.rng.choice([(0, 0), (.02, 0), (0, .2), (.01, .2), (.002, 0)]) for _ in range(7)]))
    for x in scen[:8]:
        x['pauses'] = [(c.pick(.3, 2.), 0)] + x['pauses']
    traces = c.batches('background.py', scen, timeout=c.pick(250, 1500))
    c.notes.append('%d programs, %d requests' % (len(scen), sum(e['op'] in ('start', 'stop') for t in traces for e in t)))
    c.sample(dict(scenario=scen[0], trace=traces[0][:8]))
    for i, clause, step in c.validate('TraceBackground', traces, const={'MaxReq': 0}):
        c.violation(clause, dict(scenario=scen[i], event=traces[i][step - 1], step=step))
