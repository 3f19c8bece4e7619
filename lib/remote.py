"""C27: programs under the remote-profile and live-profile commands."""
import json, os

CFG = '''SPECIFICATION %s
CONSTANTS
  Client = {%s}
  Path <- Paths
  Status = {%s}
  Live = %s
  MaxMoves = %d
CHECK_DEADLOCK FALSE
'''
PROPS = 'INVARIANTS True_ Passed\nPROPERTIES ForClients NobodyLeft Told Alone PassedOn\n'
ENDINGS = ['return', 'exit', 'raise', '_exit', 'kill', 'term']


def run(c):
    for live, clients, moves in c.pick([('FALSE', '1, 2', 5), ('TRUE', '1', 7)], [('FALSE', '1, 2', 7), ('FALSE', '1, 2, 3', 6), ('TRUE', '1', 10)]):
        c.model('RemoteMC', CFG % ('Spec', clients, '"return", "exit"', live, moves) + PROPS, timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for live, clients, depth, num in (('FALSE', '1, 2, 3', 14, c.pick(80, 700)), ('FALSE', '1, 2, 3', 30, c.pick(32, 300)),
                                      ('TRUE', '1', 8, c.pick(64, 500)), ('TRUE', '1', 20, c.pick(16, 150))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        cfg = CFG % ('GSpec', clients, '"return"', live, 0) + 'ACTION_CONSTRAINT Dump\n'
        for ops in c.simulate('RemoteGen', cfg, num, depth, env={'MODE': mode}, timeout=800):
            ops = [list(o) for o in ops]
            if live == 'TRUE':
                end = c.rng.choice([[], [['end', c.rng.choice(ENDINGS)]], [['end', c.rng.choice(ENDINGS)]]])
                ops += end + [['close', c.rng.choice(['quit', 'quit', 'int'])]]
            else:
                ops += [['end', c.rng.choice(ENDINGS)]]
            scen.append(dict(live=live == 'TRUE', ops=ops, seed=c.rng.randrange(10 ** 6), kind=c.rng.choice(['script', 'script', 'module', 'command']),
                             profiler=c.rng.choice(['tracing', 'tracing', 'itimer', 'sampling']),
                             spawn=c.rng.choice(['', '', 'threading', 'gevent']), fresh=c.rng.random() < .2))
    c.rng.shuffle(scen)
    traces = c.batches('remote.py', scen, timeout=c.pick(400, 3000))
    c.notes.append('%d programs, %d operations, %d results received' % (len(scen), sum(len(t) for t in traces), sum(t[-1]['results'] for t in traces)))
    c.sample(dict(scenario=scen[0], trace=traces[0][-3:]))
    for i, clause, step in c.validate('TraceRemote', traces, const={'Client': '{1, 2, 3}', 'Path': '{}', 'Status': '{}', 'Live': 'FALSE', 'MaxMoves': 0},
                                      timeout=c.pick(300, 1500)):
        c.violation('%s (%s, %s)' % (clause, 'live' if scen[i]['live'] else 'remote', scen[i]['profiler']),
                    dict(scenario=scen[i], event=traces[i][step - 1], step=step))
