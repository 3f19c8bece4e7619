"""C26: where commands take their settings from."""
import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Used = %s\nCHECK_DEADLOCK FALSE\n'


def run(c):
    pairs = c.pick(['{"profiler", "timer"}', '{"sampling_interval", "endpoint"}'],
                   ['{"profiler", "timer", "sampler"}', '{"sampling_interval", "pickle_protocol", "profiler"}', '{"signum", "endpoint", "spawn"}', '{"interval", "profiler"}'])
    for used in pairs:
        c.model('Config', CFG % ('Spec', used) + 'INVARIANTS CliDecides Independent Shadowed NothingRuns\nPROPERTY Justified\n', timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    with open(mode, 'w') as f:
        json.dump(dict(depth=40), f)
    scen = [dict(ops=ops, seed=c.rng.randrange(10 ** 6)) for ops in c.simulate(
        'ConfigGen', CFG % ('GSpec', '{}') + 'ACTION_CONSTRAINT Dump\n', c.pick(48, 600), 40, env={'MODE': mode}, timeout=800)]
    traces = c.batches('config.py', scen, timeout=c.pick(400, 3000))
    runs = [e for t in traces for e in t if e['op'] == 'run']
    c.notes.append('%d commands run, %d rejected' % (len(runs), sum(e['out'] == 'usage' for e in runs)))
    c.sample(runs[:2])
    for i, clause, step in c.validate('TraceConfig', traces, const={'Used': '{}'}):
        e = traces[i][step - 1]
        c.violation('%s: %s' % (clause, e['args']), dict(scenario=scen[i], event=e, step=step))
