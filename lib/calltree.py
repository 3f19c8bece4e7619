import json, os

CFG = '''SPECIFICATION %s
CONSTANTS Fn = {%s}
 GFn = {%s}
 Thr = {%s}
 MaxDepth = %d
 MaxTime = %d
 MaxSess = %d
 MaxCalls = %d
'''
ALL = ['f%d' % i for i in range(6)]
GALL = ['g0', 'g1']
TALL = ['T1', 'T2']
INVS = 'NoNegativeTime TimeNeedsCalls IgnoredAbsent BaseAbsent StackDiscipline'
PROPS = 'SampleCounts OnlyWhileRunning'


def q(xs):
    return ', '.join('"%s"' % x for x in xs)


def interrupted(c, ops):
    """Some calls and returns whose event is interrupted by a signal, whose
    handler ends the session and begins another."""
    res, running = [], False
    for o in ops:
        if o[0] in ('start', 'stop'):
            running = o[0] == 'start'
        if running and o[0] in ('call', 'ret') and c.rng.random() < .08:
            o = ['callin', o[1], c.rng.choice([1, 2, 3])] if o[0] == 'call' else ['retin', c.rng.choice([1, 2, 3])]
        res.append(o)
    return res


def run(c):
    for nf, ng, nt, depth, t, n in c.pick([(2, 0, 0, 3, 1, 4), (1, 1, 1, 2, 1, 3), (1, 0, 1, 2, 1, 4)],
                                          [(2, 0, 0, 4, 2, 5), (1, 1, 1, 2, 1, 4), (2, 0, 1, 2, 1, 4), (1, 0, 2, 2, 1, 5)]):
        c.model('CallTree', CFG % ('Spec', q(ALL[:nf]), q(GALL[:ng]), q(TALL[:nt]), depth, t, 1, n) +
                'CONSTRAINT Bound\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n' % (INVS, PROPS), timeout=850)
    modes = {'C04': [('tracing', 'cpu', 1)], 'C05': [('tracing', 'cpu', .6), ('tracing', 'thread', .6)],
             'C06': [('sampling', 'cpu', 1)]}[c.pid]
    scen = []
    for kind, timer, share in modes:
        for nf, ng, nt, depth, length, num, inner in [
                (2, 0, 0, 4, 50, c.pick(100, 2000), True),
                (2, 0, 0, 3, 30, c.pick(60, 2000), False), (3, 1, 0, 4, 80, c.pick(80, 2000), False),
                (3, 1, 2, 4, 120, c.pick(80, 2000), False), (6, 2, 2, 9, 300, c.pick(24, 600), False)]:
            mode = os.path.join(c.scratch, 'mode.json')
            with open(mode, 'w') as f:
                json.dump(dict(kind=kind, timer=timer, depth=length, inner=inner), f)
            progs = c.simulate('CallTreeGen', CFG % ('GSpec', q(ALL[:nf]), q(GALL[:ng]), q(TALL[:nt]), depth, 0, 0, 0) +
                               'ACTION_CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n', int(num * share), length, env={'MODE': mode}, timeout=800)
            c.notes.append('%s/%s: %d programs of %d steps' % (kind, timer, len(progs), length))
            for ops in progs:
                if kind == 'tracing' and not nt:
                    ops = interrupted(c, ops)
                scen.append(dict(kind=kind, timer=timer, fns=ALL[:nf] + GALL[:ng], ops=ops + [['result']] * any(o[0] == 'start' for o in ops),
                                 deltas=[c.rng.choice([0, 0, 1, 2, 5]) for _ in range(17)]))
    traces = c.batches('calltree.py', scen, timeout=c.pick(300, 1500))
    c.sample(dict(ops=scen[0]['ops'], result=traces[0][-1]))
    nres = sum(ev['op'] == 'result' for t in traces for ev in t)
    c.notes.append('%d results compared' % nres)
    for i, clause, step in c.validate('TraceCallTree', traces, const={
            'Fn': '{%s}' % q(ALL), 'GFn': '{%s}' % q(GALL), 'Thr': '{%s}' % q(TALL), 'MaxDepth': 0, 'MaxTime': 0, 'MaxSess': 0, 'MaxCalls': 0}):
        c.violation(clause, dict(scenario=scen[i], event=traces[i][step - 1], step=step))
