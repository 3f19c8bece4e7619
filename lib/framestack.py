import json

def run(c):
    const = 'CONSTANTS Code = {%s}\n MaxLen = %d\n'
    names, n = c.pick((['a', 'b'], 4), (['a', 'b', 'c'], 5))
    cfg = const % (', '.join('"%s"' % x for x in names), n)
    c.model('FrameStack', 'SPECIFICATION Spec\n' + cfg + 'INVARIANTS Complete InOrder\nCHECK_DEADLOCK FALSE\n', timeout=800)
    n = c.pick(4, 4)
    cfg = const % (', '.join('"%s"' % x for x in names), n)
    cases = c.cases('FrameStackGen', 'SPECIFICATION Spec\n' + cfg + 'CONSTRAINT Dump\nCHECK_DEADLOCK FALSE\n', count=False, timeout=800)
    # longer chains by chance
    for _ in range(c.pick(2000, 40000)):
        chain = [c.rng.choice('abcd') for _ in range(c.rng.randint(5, 30))]
        cases.append([chain, c.rng.choice([-1, 0, c.rng.randint(1, len(chain))]), c.rng.choice(['', '', 'foreign'] + list('abcd')),
                      sorted(c.rng.sample(range(1, len(chain) + 1), c.rng.randint(0, 4))),
                      sorted(c.rng.sample('abcd', c.rng.choice([0, 0, 1, 1, 2, 3])))])
    groups = {}
    for chain, base, bcode, ignf, ignc in cases:
        groups.setdefault(json.dumps(chain), []).append([base, bcode, ignf, ignc])
    items = [[json.loads(k), v] for k, v in sorted(groups.items())]
    c.rng.shuffle(items)
    parts = [items[i::8] for i in range(8)]
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda p: c.harness('framestack.py', p, timeout=c.pick(200, 1500)), parts))
    events = [e for o in outs for e in o]
    if len(events) != len(cases):
        raise RuntimeError('%d results for %d cases' % (len(events), len(cases)))
    traces = [events[i:i + 1000] for i in range(0, len(events), 1000)]
    c.notes.append('%d calls of each implementation on %d chains' % (len(events), len(items)))
    c.sample(events[-1])
    for i, clause, step in c.validate('TraceFrameStack', traces, const={'Code': '{}', 'MaxLen': 0}, timeout=800):
        c.violation(clause, traces[i][step - 1])
