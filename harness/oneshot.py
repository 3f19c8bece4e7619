"""Runs generated programs under the profile and timeit commands, each in a
process of its own; records what the program did and saw, and what was
delivered."""
import json, os, pickle, random, re, shutil, signal, subprocess, sys, time
from hlib import main, REPO
import screen

SCRATCH = os.environ['VERIF_SCRATCH']

# What the programs never call.
FOREIGN = re.compile(r'^profiling\b|\b(threading|contextlib|traceback|linecache|tokenize|click)\b')

HEAD = '''\
START = sorted(globals())
import os, pickle, signal, sys, time
FD = os.open(%(log)r, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
ALL = %(ops)r
OPS = list(ALL)
STATE = {'n': 0}
class Own(object):
    pass
class Quit(BaseException):
    pass
'''
BODY = '''\
while True:
    if not OPS:
        os.write(FD, ('end\\t0\\t0\\t%r\\t%r\\n' % (sys.getprofile() is not None, signal.getitimer(2)[1] > 0)).encode())
        @LEAVE@
    K, V = OPS.pop(0)
    W = ''
    if K == 'see':
        if V == 'argv':
            W = repr(sys.argv)
        elif V == 'name':
            W = __name__
        elif V == 'file':
            W = globals().get('__file__', 'none')
        elif V == 'main':
            W = sys.modules['__main__'].__dict__ is globals()
        elif V == 'names':
            W = [X for X in START if not X.startswith('__')]
        elif V == 'spec':
            W = getattr(__spec__, 'name', None)
        elif V == 'text':
            W = ascii(@TEXT@)
        elif V == 'own':
            W = pickle.loads(pickle.dumps(Own())).__class__ is Own
        elif V == 'sibling':
            @SIBLING@
            W = beside.WHO
        elif V == 'chdir':
            os.chdir(%(elsewhere)r)
            W = os.getcwd()
        elif V == 'print':
            print('out')
        elif V == 'err':
            sys.stderr.write('err\\\\n')
        elif V == 'read':
            W = sys.stdin.readline().strip()
        elif V == 'global':
            STATE['n'] += 1
            W = STATE['n']
        elif V == 'burn':
            END = time.process_time() + .03
            while time.process_time() < END:
                pass
    os.write(FD, ('%%s\\t%%s\\t%%s\\t%%r\\t%%r\\n' %% (K, V, W, sys.getprofile() is not None, signal.getitimer(2)[1] > 0)).encode())
    if K == 'call':
        FNS[V]()
    elif K == 'try':
        try:
            FNS[V]()
        except Exception:
            pass
    elif K == 'ret':
        @LEAVE@
    elif K == 'raise':
        raise ValueError('boom')
    elif K == 'exit':
        raise SystemExit(3)
    elif K == 'kbd':
        raise KeyboardInterrupt
    elif K == 'base':
        raise Quit('quit')
'''


def only(b):
    """The number within the bounds in thousandths, if there is but one."""
    n = b[1] // 1000
    return n if b[0] <= n * 1000 and b[0] > (n - 1) * 1000 else -1


def indent(text, by=4):
    return ''.join(' ' * by + line + '\n' for line in text.split('\n')[:-1])


def source(item, log, elsewhere, ops, text, sibling):
    head = HEAD % dict(log=log, ops=[(k, v) for k, v in ops])
    body = BODY.replace('%(elsewhere)r', repr(elsewhere)).replace('%%', '%').replace('\\\\n', '\\n').replace('@TEXT@', repr(text)[0] + text + repr(text)[0]).replace('@SIBLING@', sibling)
    fns = ''.join('def f%d():\n%s' % (n, indent(body.replace('@LEAVE@', 'return'))) for n in range(1, 4))
    top = body.replace('@LEAVE@', 'break')
    return head + fns + 'FNS = {1: f1, 2: f2, 3: f3}\n', top


def write(path, text, encoding='utf-8'):
    if os.path.dirname(path) and not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'wb') as f:
        f.write(text.encode(encoding))


class Job(object):
    def __init__(self, item, k):
        self.item = item
        self.rng = random.Random(item['seed'])
        self.dir = os.path.join(SCRATCH, 'job%d' % k)
        os.makedirs(os.path.join(self.dir, 'elsewhere'))
        os.chdir(self.dir)
        self.dir = os.getcwd()
        self.elsewhere = os.path.join(self.dir, 'elsewhere')
        self.log = os.path.join(self.dir, 'log')
        write('stdin', ''.join('line%d\n' % i for i in range(500)))
        kind = item['kind']
        nested = kind == 'package' and self.rng.random() < .5
        encoding = self.rng.choice(['utf-8', 'utf-8-sig', 'latin-1']) if kind in ('script', 'module', 'package') else 'utf-8'
        # no line breaks to Python
        self.text = ''.join(self.rng.choice('ab\xe9\xdf\x0b\x0c\x1c\x85' + ('' if encoding == 'latin-1' else '\u2028\u0433')) for _ in range(4))
        defs, top = source(item, self.log, self.elsewhere, item['ops'], self.text, 'from . import beside' if nested else 'import beside')
        text = defs + top
        if encoding == 'latin-1':
            text = '# -*- coding: latin-1 -*-\n' + text
        if encoding != 'utf-8' and self.rng.random() < .5:
            text = text.replace('\n', '\r\n')
        write('beside.py', 'WHO = "cwd"\n')
        self.who, self.file, self.argv0, self.files, self.spec = 'cwd', 'none', None, ('<string>',), 'None'
        if kind == 'script':
            path = self.rng.choice(['prog.py', 'sub/prog.py', os.path.join(self.dir, 'sub', 'prog.py'), './prog.py', 'a program'])
            write(path, text, encoding)
            if 'sub' in path:
                write('sub/beside.py', 'WHO = "sub"\n')
                self.who = 'sub'
            self.args, self.file, self.argv0, self.files = [path], path, path, (path,)
        elif kind == 'module':
            write('progmod.py', text, encoding)
            self.spec = 'progmod'
            self.args, self.file = ['-m', 'progmod'], os.path.join(self.dir, 'progmod.py')
        elif nested:
            write('outer/__init__.py', '')
            write('outer/inner/__init__.py', '')
            write('outer/beside.py', 'WHO = "outer"\n')
            write('outer/inner/beside.py', 'WHO = "inner"\n')
            write('outer/inner/prog.py', text, encoding)
            self.who, self.spec = 'inner', 'outer.inner.prog'
            self.args, self.file = ['-m', 'outer.inner.prog'], os.path.join(self.dir, 'outer', 'inner', 'prog.py')
        elif kind == 'package':
            self.spec = 'progpkg.__main__'
            write('progpkg/__init__.py', '')
            write('progpkg/__main__.py', text, encoding)
            self.args, self.file = ['-m', 'progpkg'], os.path.join(self.dir, 'progpkg', '__main__.py')
        elif kind == 'command':
            self.args = ['-c', text]
        if kind in ('module', 'package'):
            self.argv0, self.files = self.file, (self.file,)
        if kind == 'timeit':
            if self.rng.random() < .5:
                write('timefns.py', defs)
                setup = 'from timefns import *\nimport os, signal, sys, time'
                self.files = (os.path.join(self.dir, 'timefns.py'), 'STATEMENT')
            else:
                setup = defs
                self.files = ('<string>', 'STATEMENT')
            self.args = ['timeit', '-n', str(item['reps']), '-s', setup, 'OPS[:] = ALL\n' + top]
        else:
            self.args += (['--'] if any(a.startswith('-') for a in item['argv']) else []) + item['argv']
        opts = {'tracing': [['-T'], []], 'itimer': [['-S']], 'sampling': [['-S', '--sampler=tracing']]}[item['profiler']]
        opts = list(self.rng.choice(opts))
        self.dump = None
        if item['form'] != 'viewer':
            self.dump = self.rng.choice(['result.prf', './elsewhere/of the program', os.path.join(self.dir, 'abs.prf')])
            if self.rng.random() < .3:      # what was there before
                with open(self.dump, 'wb') as f:
                    f.write(pickle.dumps(('an earlier result', list(range(1000)) * self.rng.choice([1, 100]))))
            opts += ['-d', self.dump] + (['--pickle-protocol', item['form'].split()[1]] if item['form'] != 'dump 4' or self.rng.random() < .5 else [])
        if kind == 'timeit':
            self.args[1:1] = opts
        else:
            self.args = opts + self.args
            if self.rng.random() < .5:
                self.args.insert(0, 'profile')

    # -- in the process of the command -----------------------------------------

    def note(self, **what):
        with open('/dev/fd/%d' % self.notes if False else os.path.join(self.dir, 'notes'), 'a') as f:
            f.write(json.dumps(what) + '\n')

    def hooks(self):
        return sys.getprofile() is not None or signal.getitimer(signal.ITIMER_PROF) != (0, 0)

    def child(self):
        import threading
        import urwid
        os.dup2(os.open('stdin', os.O_RDONLY), 0)
        os.dup2(os.open('stdout', os.O_WRONLY | os.O_CREAT), 1)
        os.dup2(os.open('stderr', os.O_WRONLY | os.O_CREAT), 2)
        job = self

        def run_loop(loop):
            sys.stderr.flush()
            with open(os.path.join(job.dir, 'stderr'), errors='replace') as f:
                shown = f.read()
            on = job.hooks()
            s = screen.expand_all(loop.widget, rows=120)
            job.note(viewer=True, on=on, stderr=shown, head=s.head,
                     rows=[[r['depth'], r['name'], r['loc'], r['figures']] for r in s.rows])
        urwid.MainLoop.run = run_loop
        from profiling.__main__ import cli
        crash = ''
        try:
            cli.main(self.args, prog_name='profiling')
        except SystemExit as e:
            if e.code not in (0, None) and not self.exits(e.code):
                crash = 'exit status %s' % e.code
        except BaseException as e:
            crash = '%s: %s' % (type(e).__name__, e)
        for f in (sys.stdout, sys.stderr):
            f.flush()
        self.note(over=True, on=self.hooks() or getattr(threading, '_profile_hook', None) is not None, crash=crash)

    def exits(self, code):
        """The command may pass the exit status of the program on."""
        return code in (1, 3) and self.item['ending'] != 'return'

    # -- in the driver ------------------------------------------------------------

    def run(self):
        if self.item['fresh']:
            env = dict(os.environ, LC_ALL='C.UTF-8')
            p = subprocess.Popen([sys.executable, '--jit', 'off', '-W', 'ignore', '-m', 'profiling'] + self.args, env=env,
                                 stdin=open('stdin'), stdout=open('stdout', 'w'), stderr=open('stderr', 'w'))
            try:
                code = p.wait(60)
                self.note(over=True, on=False, crash='' if code == 0 or self.exits(code) else 'exit status %s' % code)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.note(over=True, on=False, crash='hung')
        else:
            pid = os.fork()
            if not pid:
                try:
                    self.child()
                finally:
                    os._exit(0)
            end = time.time() + 40
            while not os.waitpid(pid, os.WNOHANG)[0]:
                if time.time() > end:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                    self.note(over=True, on=False, crash='hung')
                    break
                time.sleep(.002)
        os.chdir(self.dir)
        return self.trace()

    def want(self, what, seen):
        """What the program would see if run by Python."""
        item = self.item
        if what == 'argv':
            return 'args'
        n = seen[what] = seen.get(what, 0) + 1
        return {'name': '__main__', 'names': '[]', 'spec': self.spec, 'text': ascii(self.text), 'file': self.file, 'main': 'True', 'own': 'True', 'sibling': self.who, 'chdir': self.elsewhere,
                'read': 'line%d' % (n - 1), 'global': str(n)}.get(what, '')

    def trace(self):
        item = self.item
        timer = item['profiler'] == 'itimer'
        trace = [dict(op='begin', prog=item['ops'], reps=item['reps'], form=item['form'],
                      profiler='tracing' if item['profiler'] == 'tracing' else 'sampling')]
        seen, burned, path = {}, [], []
        lines = []
        if os.path.exists(self.log):
            with open(self.log) as f:
                lines = f.read().splitlines()
        for line in lines:
            k, v, got, hook, itimer = line.split('\t')
            v = int(v) if v.isdigit() else v
            want = self.want(v, seen) if k == 'see' else got
            if k == 'see' and v == 'argv':
                argv = eval(got)
                ok = argv[1:] == item['argv'] and (self.argv0 is None or argv[0] == self.argv0)
                got = 'args' if ok else got
            trace.append(dict(op='step', did=[k, v], on=(itimer if timer else hook) == 'True', what=str(v), got=got, want=want))
            # where functions ran for long, by the operations alone
            if k in ('call', 'try'):
                path.append((v, k == 'try'))
            elif k in ('ret', 'end'):
                path = path[:-1]
            elif k == 'raise':
                while path and not path[-1][1]:
                    path.pop()
                path = path[:-1]
            elif v == 'burn':
                burned.append([p for p, _ in path])
        trace.append(self.delivered(burned, seen))
        return trace

    def delivered(self, burned, seen):
        notes = []
        if os.path.exists('notes'):
            with open('notes') as f:
                notes = [json.loads(x) for x in f]
        over = [x for x in notes if x.get('over')] or [dict(on=False, crash='died')]
        views = [x for x in notes if x.get('viewer')]
        with open('stderr', errors='replace') as f:
            err = f.read()
        with open('stdout', errors='replace') as f:
            out = f.read()
        if views:
            early = views[0]['stderr']
        else:
            early = err
        ev = dict(op='deliver', crash=over[0]['crash'], on=over[0]['on'] or any(x['on'] for x in views),
                  times=len(views), form='viewer' if views else 'nothing', rows=[], own=0, top=0, burned=burned,
                  tracebacks=early.count('Traceback (most recent call last)'), error='',
                  printed=len(re.findall('^out$', out, re.M)), prints=seen.get('print', 0),
                  erred=len(re.findall('^err$', err, re.M)), errs=seen.get('err', 0),
                  stderr=err[-1500:])
        if len(re.findall('^Traceback', err, re.M)) > ev['tracebacks']:
            ev['tracebacks'] = 99
        for name, pattern in (('raise', '^ValueError: boom$'), ('kbd', '^KeyboardInterrupt'), ('base', r'^(\w+\.)*Quit: quit$')):
            if re.search(pattern, early, re.M):
                ev['error'] = name
        if self.dump and os.path.exists(self.dump):
            ev['times'] += 1
            try:
                with open(self.dump, 'rb') as f:
                    data = f.read()
                import io, pickletools
                proto = max([o.proto if o.name != 'PROTO' else a for o, a, _ in pickletools.genops(data)])
                cls, (stats, cpu, wall) = pickle.loads(data)
                from profiling.sampling import SamplingProfiler
                from profiling.tracing import TracingProfiler
                good = cls is (TracingProfiler if self.item['profiler'] == 'tracing' else SamplingProfiler) and 0 <= cpu < 60 and 0 <= wall < 60
                ev['form'] = ('dump %d' % proto) if good else 'wrong dump'
                rows = self.walk(stats)
            except Exception as e:
                ev['form'] = 'broken dump: %s: %s' % (type(e).__name__, e)
                rows = []
        elif views:
            rows = [(d, n, None if ':' not in loc else loc.rpartition(':')[0], f and f[0]) for d, n, loc, f in views[0]['rows']]
            if views[0]['head'] != ('tracing' if self.item['profiler'] == 'tracing' else 'sampling'):
                ev['form'] = 'viewer of another kind'
        else:
            rows = []
        if self.item['kind'] != 'timeit' and ev['times'] and not self.dump and os.path.exists('result.prf'):
            ev['times'] += 1
        path = []
        for depth, name, loc, hits in rows:
            del path[depth - 1:]
            m = re.match(r'f([123])$', name or '')
            top = name in (None, '<module>') or depth == 1 and not loc
            path.append(0 if top and depth == 1 else int(m.group(1)) if m else None)
            if loc and (loc.startswith(os.path.join(REPO, 'profiling')) or FOREIGN.search(loc)):
                ev['own'] += 1
                ev['ownrow'] = '%s %s %s' % (depth, name, loc)
            if None in path:
                continue
            h = hits if not isinstance(hits, list) else only(hits)
            h = -1 if h is None else h
            if path == [0]:
                ev['top'] += h if self.item['kind'] != 'timeit' else 1
            else:
                ev['rows'].append(dict(p=list(path), hits=h))
        return ev

    def walk(self, stats):
        rows, todo = [], [(1, x) for x in list(stats)[::-1]]
        while todo:
            d, s = todo.pop()
            rows.append((d, s.name, s.filename if not (s.module or '').startswith('profiling') else 'profiling', int(s.own_hits)))
            todo += [(d + 1, x) for x in list(s)[::-1]]
        return rows


def play(item, k):
    job = Job(item, k)
    try:
        return job.run()
    finally:
        os.chdir(SCRATCH)
        if not os.environ.get('VERIF_KEEP_JOBS'):
            shutil.rmtree(job.dir)


def run(payload):
    import profiling.__main__, urwid  # once, before the forks
    return [play(x, k) for k, x in enumerate(payload)]


if __name__ == '__main__':
    main(run)
