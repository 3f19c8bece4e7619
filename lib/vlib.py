"""Shared machinery of the checks: running TLC, running the harnesses on the
code under test, deriving scenarios from TLC's state graph, evidence files."""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')


class CheckError(Exception):
    """The machinery itself failed (not a verdict)."""


def brief(out):
    """The part of TLC's output from its first error on."""
    i = out.find('Error:')
    return out[i if i >= 0 else -2500:][:2500]


class TLCResult(object):
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = 'Model checking completed. No error has been found' in out
        if 'The number of states generated:' in out and 'Simulation' in out:
            m = re.search(r'The number of states generated: (\d+)', out)
            self.generated = int(m.group(1))
        self.violated = re.findall(r'Invariant (\S+) is violated|Action property (\S+) is violated|'
                                   r'Temporal properties were (violated)|property (\S+) is violated', out)
        self.violated = [next(x for x in t if x) for t in self.violated]


class Check(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.notes = []
        self.assumptions = []
        self.violations = []
        self.known = []
        self.rng = random.Random('%s/%d' % (pid, seed))
        out = os.environ.get('VERIF_OUT')  # used by tools/mkseed.py alone
        self.outdir = os.path.join(out or os.path.join(VERIF, 'out'), pid)
        self.evdir = os.path.join(out or VERIF, 'evidence')
        shutil.rmtree(self.outdir, ignore_errors=True)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- TLC -----------------------------------------------------------------

    def tlc(self, module, cfg, env=None, workers=None, timeout=600, args=(),
            expect_ok=True, count=True, specdir=SPEC):
        """Runs TLC on spec/<module>.tla with the given cfg text."""
        d = tempfile.mkdtemp(prefix='tlc', dir=self.scratch)
        cfgfile = os.path.join(d, module + '.cfg')
        with open(cfgfile, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx6g', '-Xss64m', '-cp', TLAJARS, 'tlc2.TLC',
               '-config', cfgfile, '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
               '-workers', str(workers or min(8, os.cpu_count() or 1))] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        with open(os.path.join(d, 'out'), 'w') as f:
            try:
                rc = subprocess.call(cmd, cwd=specdir, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError('TLC timed out on %s' % module)
        with open(os.path.join(d, 'out'), errors='replace') as f:
            out = f.read()
        r = TLCResult(rc, out, time.time() - t)
        shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
        if expect_ok and not r.ok:
            raise CheckError('TLC on %s failed (rc %d):\n%s' % (module, rc, brief(out)))
        if count:
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.generated
        return r

    def model(self, module, cfg, **kw):
        """Exhaustive exploration of the specification.  It depends on the
        committed specification alone, so a failure is an error of the check."""
        r = self.tlc(module, cfg, **kw)
        self.notes.append('%s: %d distinct states, %d transitions, %.1fs' % (module, r.distinct, r.generated, r.wall))
        return r

    def graph(self, module, cfg, **kw):
        """Labelled state graph of spec/<module>.tla: the spec prints
        ["EDGE", s, op, t] and ["INIT", s] lines (see GraphDump in the specs)."""
        r = self.tlc(module, cfg, workers=1, **kw)
        inits, edges = [], {}
        for line in r.out.splitlines():
            if line.startswith('"['):
                line = json.loads(line)
                x = json.loads(line)
                if x[0] == 'INIT':
                    k = json.dumps(x[1], sort_keys=True)
                    if k not in inits:
                        inits.append(k)
                elif x[0] == 'EDGE':
                    s, t = json.dumps(x[1], sort_keys=True), json.dumps(x[3], sort_keys=True)
                    edges.setdefault(s, {})[json.dumps(x[2], sort_keys=True)] = t
        if not inits or not edges:
            raise CheckError('empty state graph of %s\n%s' % (module, r.out[-3000:]))
        return Graph(inits, edges)

    def cases(self, module, cfg, tag='CASE', **kw):
        """What spec/<module>.tla prints as ["CASE", x] lines, without duplicates."""
        r = self.tlc(module, cfg, **kw)
        res = {}
        for line in r.out.splitlines():
            if line.startswith('"['):
                x = json.loads(json.loads(line))
                if x[0] == tag:
                    res.setdefault(json.dumps(x[1], sort_keys=True), x[1])
        if not res:
            raise CheckError('no cases from %s\n%s' % (module, r.out[-3000:]))
        return [res[k] for k in sorted(res)]

    def simulate(self, module, cfg, num, depth, **kw):
        """Random behaviours of spec/<module>.tla: it prints ["PROGRAM", ops]
        for the candidates of the last step; one of each behaviour is kept."""
        n = min(8, num)
        def part(i):
            return self.tlc(module, cfg, workers=1, expect_ok=False, count=False, args=[
                '-simulate', 'num=%d' % ((num + n - 1) // n), '-depth', str(depth + 1),
                '-seed', str(seeds[i])], **kw)
        seeds = [self.rng.randint(1, 10 ** 6) for _ in range(n)]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(part, range(n)))
        res = []
        for r in rs:
            if r.rc != 0:
                raise CheckError('simulation of %s failed:\n%s' % (module, brief(r.out)))
            seen = set()
            for line in r.out.splitlines():
                if line.startswith('"[') and 'PROGRAM' in line[:16]:
                    ops = json.loads(json.loads(line))[1]
                    key = json.dumps(ops[:-1])
                    if key not in seen:
                        seen.add(key)
                        res.append(ops)
            self.cov['states'] += r.generated
        return res

    # -- the code under test ---------------------------------------------------

    def harness(self, script, payload, timeout=300, args=(), env=None, jit=False):
        """Runs harness/<script> on the code under test; returns its output."""
        d = tempfile.mkdtemp(prefix='run', dir=self.scratch)
        inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(inp, 'w') as f:
            json.dump(payload, f)
        e = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VERIF_'))}
        e.update(PYTHONPATH=REPO + ':' + HARNESS, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                 VERIF_REPO=REPO, VERIF_SCRATCH=d, LANG='C.UTF-8', HOME=d)
        e.update(env or {})
        work = os.path.join(d, 'cwd')
        os.makedirs(work)
        p = subprocess.Popen([PYPY] + ([] if jit else ['--jit', 'off']) + ['-W', 'ignore', os.path.join(HARNESS, script), inp, outp] + list(args),
                             cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            hung = True
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        if hung:
            out = p.communicate()[0]
        out = out.decode('utf-8', 'replace')
        res = None
        if os.path.exists(outp):
            with open(outp) as f:
                txt = f.read()
            try:
                res = json.loads(txt)
            except ValueError:
                res = None
        if res is None:
            raise HarnessError('%s %s (rc %s)' % (script, 'hung' if hung else 'died', p.returncode), out[-4000:])
        return res

    def batches(self, script, items, timeout=300, n=8, **kw):
        """harness() on a list, split over n parallel processes; the results
        come back in the order of the items."""
        n = max(1, min(n, len(items)))
        parts = [items[i::n] for i in range(n)]
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(lambda part: self.harness(script, part, timeout=timeout, **kw), parts))
        res = [None] * len(items)
        for i, out in enumerate(outs):
            if len(out) != len(parts[i]):
                raise CheckError('%s: %d results for %d items' % (script, len(out), len(parts[i])))
            res[i::n] = out
        return res

    # -- trace validation --------------------------------------------------------

    def validate(self, module, traces, const=None, prop=None, timeout=600, extra_cfg='', workers=None):
        """Validates recorded traces against spec/<module>.tla.  The trace spec
        reads $TRACES, keeps a variable `bad` that names the violated clause
        ("" if none) and an invariant Conforms == bad = "".  Returns the list
        of (trace index, clause, step)."""
        if not traces:
            return []
        n = len(os.listdir(self.scratch))
        path = os.path.join(self.scratch, 'traces%d.json' % n)
        with open(path, 'w') as f:
            json.dump(traces, f)
        cfg = ('SPECIFICATION TraceSpec\nCONSTRAINT Report\nCHECK_DEADLOCK FALSE\n'
               'CONSTANTS\n' + ''.join('  %s = %s\n' % kv for kv in (const or {}).items()) + extra_cfg)
        if not const:
            cfg = cfg.replace('CONSTANTS\n', '')
        r = self.tlc(module, cfg, env={'TRACES': path, 'PROP': prop or self.pid}, timeout=timeout, expect_ok=False,
                     workers=workers)
        bad, done = [], set()
        for m in re.finditer(r'^"(\[.*\])"$', r.out, re.M):
            x = json.loads(json.loads('"%s"' % m.group(1)))
            if x[0] == 'BAD':
                bad.append((x[1] - 1, x[2], x[3]))
            elif x[0] == 'DONE':
                done.add(x[1] - 1)
        if not r.ok:
            raise CheckError('trace validation with %s failed:\n%s' % (module, brief(r.out)))
        missing = set(range(len(traces))) - done - set(b[0] for b in bad)
        if missing:
            raise CheckError('%s: traces neither accepted nor rejected: %s' % (module, sorted(missing)[:5]))
        self.cov['traces_validated_against_impl'] += len(traces)
        return sorted(set(bad))

    # -- verdicts ---------------------------------------------------------------

    def violation(self, what, detail):
        os.makedirs(self.outdir, exist_ok=True)
        path = os.path.join(self.outdir, 'replay-%d.json' % len(self.violations))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, what=what, detail=detail, seed=self.seed, tier=self.tier), f, indent=1, default=str)
        self.violations.append((what, path))

    def sample(self, x):
        if len(self.cov['samples']) < 3:
            s = json.dumps(x)
            self.cov['samples'].append(x if len(s) < 3000 else s[:3000])

    def finish(self, level='model_checking'):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(self.cov, runs=self.notes), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(self.evdir, exist_ok=True)
        with open(os.path.join(self.evdir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for n in self.notes:
            print('  ' + n)
        if self.violations:
            for what, path in self.violations[:10]:
                print('  %s (%s)' % (what, path))
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0][1]))
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (
            self.pid, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'], time.time() - self.t0))
        return 0

    def close(self):
        if os.environ.get('VERIF_KEEP'):
            print('scratch kept: ' + self.scratch)
        else:
            shutil.rmtree(self.scratch, ignore_errors=True)


class HarnessError(Exception):
    """The harness did not deliver (crashed or hung) on the code under test."""
    def __init__(self, what, output):
        super(HarnessError, self).__init__('%s\n%s' % (what, output))
        self.what, self.output = what, output


class Graph(object):
    def __init__(self, inits, edges):
        self.inits, self.edges = inits, edges

    @property
    def nedges(self):
        return sum(len(x) for x in self.edges.values())

    def cover(self, rng, maxlen=40, limit=None):
        """Paths (from an initial node; lists of ops) that cover every edge."""
        todo = {(s, o) for s, os_ in self.edges.items() for o in os_}
        # distance-to-uncovered search from the current node
        paths = []
        reach = {}
        while todo and (limit is None or len(paths) < limit):
            progress = False
            for init in self.inits:
                path, s = [], init
                first = (init, [])
                while len(path) < maxlen:
                    seg = self._to_uncovered(s, todo, rng, maxlen - len(path))
                    if seg is None:
                        break
                    for o in seg:
                        todo.discard((s, o))
                        path.append(o)
                        s = self.edges[s][o]
                    progress = True
                if path:
                    paths.append((init, [json.loads(o) for o in path]))
            if not progress:
                break
        self.uncovered = len(todo)
        return paths

    def _to_uncovered(self, s, todo, rng, budget):
        seen, frontier = {s: None}, [s]
        depth = 0
        while frontier and depth < budget:
            nxt = []
            for u in frontier:
                ops = list(self.edges.get(u, {}))
                rng.shuffle(ops)
                for o in ops:
                    if (u, o) in todo:
                        seg = [o]
                        while seen[u] is not None:
                            u, o2 = seen[u]
                            seg.append(o2)
                        return seg[::-1]
                for o in ops:
                    v = self.edges[u][o]
                    if v not in seen:
                        seen[v] = (u, o)
                        nxt.append(v)
            frontier = nxt
            depth += 1
        return None

    def walks(self, rng, n, length):
        res = []
        for _ in range(n):
            s = rng.choice(self.inits)
            init, path = s, []
            while len(path) < length and self.edges.get(s):
                o = rng.choice(sorted(self.edges[s]))
                path.append(json.loads(o))
                s = self.edges[s][o]
            res.append((init, path))
        return res
