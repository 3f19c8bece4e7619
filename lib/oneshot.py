"""C25: one run of a program under the profile or timeit command."""
import json, os

CFG = 'SPECIFICATION %s\nCONSTANTS Fn = {%s}\n MaxOps = %d\nCHECK_DEADLOCK FALSE\n'
ARGS = [[], ['a'], ['a', 'b c', '3'], ['--timer', 'thread'], ['-x', '--', '-h'], ['view']]
# Not for a statement: it is no main program.
MAIN = {'argv', 'name', 'file', 'main', 'own', 'sibling', 'names', 'spec'}


def ended(c, ops, kind, ending):
    """The operations with an end: the specification says that one that is not
    caught ends the program; here it comes with all functions left or not."""
    ops = [list(o) for o in ops]
    if kind == 'timeit':
        ops = [['see', 'global'] if o[0] == 'see' and o[1] in MAIN else o for o in ops]
    if kind == 'command' and ['see', 'chdir'] in ops:   # what is imported by -c depends on the directory
        i = ops.index(['see', 'chdir'])
        ops = ops[:i] + [['see', 'global'] if o == ['see', 'sibling'] else o for o in ops[i:]]
    burns = 0
    for o in ops:
        if o == ['see', 'burn']:
            burns += 1
            if burns > 4:
                o[1] = 'global'
    if ending == 'raise':        # caught by nobody
        ops = [['call', o[1]] if o[0] == 'try' else o for o in ops]
        cut = [i for i, o in enumerate(ops) if o[0] == 'raise']
        ops = (ops[:cut[0]] if cut else ops) + [['raise', 0]]
    elif ending == 'ret':        # left early
        ops = ops + [['ret', 0]] * 7
    elif ending != 'return':
        ops = ops + [[ending, 0]]
    return ops


def run(c):
    for fns, n in c.pick([('1', 4), ('1, 2', 3)], [('1', 5), ('1, 2', 4)]):
        c.model('OneShot', CFG % ('Spec', fns, n) + 'INVARIANTS Once OnlyWhileRunning Shown AllCalls\nPROPERTY Delivered\n', timeout=850)
    mode = os.path.join(c.scratch, 'mode.json')
    scen = []
    for depth, num in ((8, c.pick(48, 500)), (25, c.pick(120, 1500)), (60, c.pick(24, 400))):
        with open(mode, 'w') as f:
            json.dump(dict(depth=depth), f)
        for ops in c.simulate('OneShotGen', CFG % ('GSpec', '1, 2, 3', 0) + 'ACTION_CONSTRAINT Dump\n', num, depth, env={'MODE': mode}, timeout=800):
            kind = c.rng.choice(['script', 'script', 'module', 'package', 'command', 'timeit', 'timeit'])
            form = c.rng.choice(['dump 4', 'dump 4', 'viewer', 'viewer', 'dump %d' % c.rng.randint(0, 5)])
            ending = c.rng.choice(['return', 'return', 'ret', 'raise', 'exit', 'kbd', 'base'])
            ops = ended(c, ops, kind, ending)
            if form == 'viewer':
                ops = [['see', 'global'] if o in (['see', 'own'], ['see', 'sibling']) else o for o in ops]
            scen.append(dict(kind=kind, form=form, ops=ops, ending=ending, reps=c.rng.choice([1, 2, 5]) if kind == 'timeit' else 1,
                             argv=c.rng.choice(ARGS) if kind != 'timeit' else [], seed=c.rng.randrange(10 ** 6),
                             profiler=c.rng.choice(['tracing', 'tracing', 'tracing', 'itimer', 'sampling']),
                             fresh=form != 'viewer' and c.rng.random() < .12))
    traces = c.batches('oneshot.py', scen, timeout=c.pick(400, 3000))
    c.notes.append('%d programs, %d operations executed' % (len(scen), sum(len(t) - 2 for t in traces)))
    c.sample(dict(scenario=scen[0], trace=traces[0][-3:]))
    for i, clause, step in c.validate('TraceOneShot', traces, const={'Fn': '{1, 2, 3}', 'MaxOps': 0}, timeout=c.pick(300, 1500)):
        c.violation('%s (%s, %s, %s)' % (clause, scen[i]['kind'], scen[i]['profiler'], scen[i]['form']),
                    dict(scenario=scen[i], event=traces[i][step - 1], step=step))
