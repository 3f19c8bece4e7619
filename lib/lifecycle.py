import json, os

KINDS = ['tracing', 'itimer', 'tsampler', 'custom', 'plain', 'wrapper']
INVS = ['TypeOK', 'SetupCleanupPaired', 'SubRunsWithOwner', 'HooksOnlyWhileRunning', 'TracingHasHook', 'OneTracer']
PROPS = ['RefusedChangesNothing', 'NeverDefaultAgain', 'NothingRecordedWhenStopped']


def mc_cfg(objs, work, sess):
    return ('SPECIFICATION Spec\nCONSTANTS Obj = {%s}\n MaxWork = %d\n MaxSess = %d\nCONSTRAINT Bound\n' % (
        ', '.join('"%s"' % o for o in objs), work, sess)
        + 'INVARIANTS ' + ' '.join(INVS) + '\nPROPERTIES ' + ' '.join(PROPS) + '\nCHECK_DEADLOCK FALSE\n')


def gen_cfg(objs):
    return ('SPECIFICATION GSpec\nCONSTANTS Obj = {%s}\n MaxWork = 1\n MaxSess = 1\n'
            'VIEW St\nACTION_CONSTRAINT Dump\nCONSTRAINT InitDump\nCHECK_DEADLOCK FALSE\n' % ', '.join('"%s"' % o for o in objs))


def run(c):
    objs = ['a', 'b']
    c.model('Lifecycle', mc_cfg(['a'], 3, 3) if not c.thorough else mc_cfg(['a', 'b'], 2, 2), timeout=800)
    if c.pid == 'C02' or c.thorough:
        combos = [('tracing', 'tracing'), ('itimer', 'itimer'), ('tracing', 'itimer'), ('tsampler', 'tracing'), ('custom', 'itimer')]
    else:
        combos = [('tracing', 'tracing'), ('itimer', 'plain'), ('custom', 'wrapper'), ('tsampler', 'plain')]
    if c.thorough:
        combos = [(x, y) for i, x in enumerate(KINDS) for y in KINDS[i:]]
    scen = []
    for combo in combos:
        kinds = dict(zip(objs, combo))
        path = os.path.join(c.scratch, 'kinds-%s.json' % '-'.join(combo))
        with open(path, 'w') as f:
            json.dump(kinds, f)
        g = c.graph('LifecycleGen', gen_cfg(objs), env={'KINDS': path})
        paths = g.cover(c.rng, maxlen=60, limit=c.pick(25, 400))
        c.notes.append('graph %s: %d states, %d edges, %d uncovered by %d paths' % (
            combo, len(g.edges), g.nedges, g.uncovered, len(paths)))
        paths += g.walks(c.rng, c.pick(10, 100), 80)
        scen += [dict(kinds=kinds, ops=ops) for _, ops in paths]
    traces = c.batches('lifecycle.py', scen, timeout=c.pick(300, 1500))
    c.sample(dict(scenario=scen[0]['kinds'], trace=traces[0][:6]))
    for i, clause, step in c.validate('TraceLifecycle', traces, const={'Obj': '{"a", "b"}', 'MaxWork': 0, 'MaxSess': 0}):
        c.violation(clause, dict(kinds=scen[i]['kinds'], ops=scen[i]['ops'][:step - 1], event=traces[i][step - 1]))
