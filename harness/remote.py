"""Runs generated programs under the real remote-profile and live-profile
commands, with clients and viewers that come and go as the model says; records
what the program, the clients and the user see."""
import json, os, pickle, random, re, select, shutil, signal, socket, struct, subprocess, sys, time
from hlib import main
import screen

SCRATCH = os.environ['VERIF_SCRATCH']
PATIENCE = float(os.environ.get('VERIF_PATIENCE', 25))

PROGRAM = '''\
import json, os, pickle, select, signal, sys, time, threading
FD, IDLE = %(fd)d, %(idle)r
class Own(object):
    pass
def pause():
    if IDLE == 'gevent':
        import gevent
        gevent.sleep(.003)
    else:
        time.sleep(.003)
BUF = [b'']
def line(wait):
    while b'\\n' not in BUF[0]:
        if wait and IDLE == 'select':
            select.select([FD], [], [])
        os.set_blocking(FD, wait and IDLE == 'read')
        try:
            x = os.read(FD, 4096)
        except BlockingIOError:
            x = None
        if x == b'':
            os._exit(77)
        BUF[0] += x or b''
        if not x:
            if not wait:
                return
            pause()
    x, BUF[0] = BUF[0].split(b'\\n', 1)
    return json.loads(x.decode())
def say(**x):
    x = (json.dumps(x) + '\\n').encode()
    while x:
        try:
            x = x[os.write(FD, x):]
        except BlockingIOError:
            pass
def hooked():
    return sys.getprofile() is not None or signal.getitimer(signal.ITIMER_PROF)[1] > 0
def until(on):
    # It is on now and then, or off for good.
    end = time.time() + %(patience)r
    off = time.time()
    while True:
        t = time.time()
        if hooked():
            if on:
                return True
            off = t
        elif not on and t - off > 1.5:
            return True
        if t > end:
            return False
        pause()
def burn():
    end = time.process_time() + .0008
    while time.process_time() < end:
        pass
CUR, COUNT, STATE = [], [0], [0]
def f1(p):
    burn()
    if p:
        FNS[p[0]](p[1:])
def f2(p):
    burn()
    if p:
        FNS[p[0]](p[1:])
def f3(p):
    burn()
    if p:
        FNS[p[0]](p[1:])
FNS = {1: f1, 2: f2, 3: f3}
def see(what):
    if what == 'argv':
        return repr(sys.argv[1:])
    elif what == 'name':
        return __name__
    elif what == 'main':
        return repr(sys.modules['__main__'].__dict__ is globals())
    elif what == 'cwd':
        return os.getcwd()
    elif what == 'print':
        print('out', flush=True)
    elif what == 'read':
        return sys.stdin.readline().strip()
    elif what == 'global':
        STATE[0] += 1
        return str(STATE[0])
    elif what == 'sleep':
        t = time.time()
        time.sleep(.15)
        return repr(time.time() - t > .149)
    elif what == 'own':
        return repr(type(pickle.loads(pickle.dumps(Own()))) is Own)
    elif what == 'env':
        return os.environ.get('VERIF_GREETING', 'none')
    elif what == 'thread':
        res = []
        t = threading.Thread(target=lambda: res.append(STATE[0]))
        t.start()
        t.join()
        return repr(res == [STATE[0]])
    elif what == 'child':
        pid = os.fork()
        if not pid:
            os._exit(7)
        return repr(os.waitpid(pid, 0)[1] >> 8)
    return ''
def step(k, v):
    if k == 'work':
        CUR[:] = v
        say(k=k, count=COUNT[0])
        COUNT[0] = 0
    elif k == 'rest':
        del CUR[:]
        say(k=k, count=COUNT[0])
        COUNT[0] = 0
    elif k == 'on' or k == 'off':
        say(k=k, ok=until(k == 'on'))
    elif k == 'see':
        say(k=k, got=see(v))
    elif k == 'err':
        sys.stderr.write('err ' + 'x' * v + '\\n')
        sys.stderr.flush()
        say(k=k)
say(k='hello', pid=os.getpid())
while True:
    OP = line(not CUR)
    if OP is not None:
        if OP[0] == 'end':
            say(k='end', count=COUNT[0])
            if OP[1] == 'exit':
                sys.exit(3)
            elif OP[1] == 'raise':
                raise ValueError('boom')
            elif OP[1] == '_exit':
                os._exit(5)
            elif OP[1] == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            elif OP[1] == 'term':
                os.kill(os.getpid(), signal.SIGTERM)
            break
        step(*OP)
    if CUR:
        FNS[CUR[0]](CUR[1:])
        COUNT[0] += 1
        if IDLE == 'gevent':
            pause()
'''


class Lost(Exception):
    """The other side does not answer."""


def dead(pid):
    try:
        for task in os.listdir('/proc/%d/task' % pid):   # all of its threads
            with open('/proc/%d/task/%s/stat' % (pid, task)) as f:
                if f.read().rpartition(')')[2].split()[0] not in 'ZX':
                    return False
    except (OSError, IndexError):
        return not os.path.exists('/proc/%d' % pid)
    return True


class Link(object):
    """A line of JSON each way."""

    def __init__(self, what, alive=lambda: True):
        self.what, self.alive = what, alive
        self.sock, self.other = socket.socketpair()
        self.buf = b''

    def ask(self, *op, **kw):
        self.sock.sendall((json.dumps(op) + '\n').encode())
        return self.answer(op, **kw)

    def answer(self, op, patience=PATIENCE + 15):
        end = time.time() + patience
        while b'\n' not in self.buf:
            if select.select([self.sock], [], [], .05)[0]:
                x = self.sock.recv(65536)
                if not x:
                    raise Lost('%s does not answer to %s' % (self.what, op))
                self.buf += x
            elif time.time() > end or not self.alive() and not select.select([self.sock], [], [], .05)[0]:
                raise Lost('%s does not answer to %s' % (self.what, op))
        x, self.buf = self.buf.split(b'\n', 1)
        return json.loads(x.decode())


def paths_of(stats):
    """path of f1..f3 -> own hits."""
    res, todo = {}, [((), s) for s in stats]
    while todo:
        p, s = todo.pop()
        m = re.match('^f([123])$', s.name or '')
        q = p + (int(m.group(1)),) if m and s.filename and 'prog' in s.filename or m and s.filename == '<string>' else ()
        if q:
            res[q] = res.get(q, 0) + int(s.own_hits)
        todo += [(q, x) for x in s]
    return res


class Raw(object):
    """A client that reads whatever it gets."""
    view = False

    def __init__(self, job, c, addr):
        self.job, self.c = job, c
        self.wrong, self.stage, self.buf, self.lost = '', 0, b'', False
        self.told, self.news, self.hits, self.results = [], set(), {}, 0
        self.sock = socket.socket()
        self.sock.settimeout(PATIENCE)
        self.sock.connect(addr)
        self.sock.setblocking(False)

    def pump(self):
        while not self.lost:
            try:
                x = self.sock.recv(1 << 20)
            except BlockingIOError:
                break
            except OSError:
                x = b''
            if not x:
                self.lost = True
            self.buf += x
        while len(self.buf) >= 5:
            method, size = struct.unpack('!BI', self.buf[:5])
            if len(self.buf) < 5 + size:
                break
            data, self.buf = self.buf[5:5 + size], self.buf[5 + size:]
            try:
                self.message(method, pickle.loads(data))
            except Exception as e:
                self.wrong = self.wrong or 'message %#x: %s: %s' % (method, type(e).__name__, e)

    def message(self, method, msg):
        want = [0x10, 0x11, 0x12][min(self.stage, 2)]
        if method != want:
            self.wrong = self.wrong or 'message %#x instead of %#x' % (method, want)
        elif method == 0x10:
            import profiling
            if msg != (self.job.protocol, profiling.__version__):
                self.wrong = 'welcome %r' % (msg,)
        elif method == 0x11:
            if msg.__name__ != self.job.class_name:
                self.wrong = 'profiler %r' % (msg,)
        else:
            stats, cpu, wall = msg
            if not (0 <= cpu < 60 and 0 <= wall < 60):
                self.wrong = 'times %r' % ((cpu, wall),)
            p = paths_of(stats)
            self.results += 1
            self.told.append([list(x) for x in p])
            self.news |= set(p)
            for x, n in p.items():
                self.hits[x] = self.hits.get(x, 0) + n
        self.stage += 1

    def greeted(self):
        self.pump()
        return self.stage >= 2

    def leave(self, how):
        if how == 'reset':
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        elif how == 'half':
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            end = time.time() + PATIENCE
            while not self.lost and time.time() < end:
                self.pump()
                time.sleep(.005)
            if not self.lost:
                self.wrong = self.wrong or 'a client that left is kept'
        self.sock.close()


class View(object):
    """A viewer, in a process of its own."""
    view = True

    def __init__(self, job, c, args, **kw):
        self.job, self.c = job, c
        self.wrong, self.told, self.news, self.hits = '', [], set(), {}
        self.link = Link('viewer')
        self.proc = Command(job, 'view%d' % job.number(), args, self.link, **kw)
        self.link.alive = lambda: not self.proc.ended()
        self.link.other.close()
        self.head = self.state = None

    def pump(self):
        x = self.link.ask('rows')
        self.head, self.state = x['head'], x['state']
        if x['head'] not in ('base', self.job.head):
            self.wrong = self.wrong or 'table of kind %s' % x['head']
        path = []
        paths = set()
        for depth, name, loc in x['rows']:
            m = re.match('^f([123])$', name or '')
            path[depth - 1:] = [int(m.group(1)) if m else 0]
            i = len(path)
            while i and path[i - 1]:
                i -= 1
            if m:
                paths.add(tuple(path[i:]))
        if paths:
            self.told.append([list(p) for p in paths])
        self.news |= paths

    def greeted(self):
        self.pump()
        return self.state == 'normal' and self.head == self.job.head

    @property
    def lost(self):
        return self.state != 'normal'

    def leave(self, how):
        self.link.sock.sendall((json.dumps(['int' if how == 'reset' else 'quit']) + '\n').encode())
        code = self.proc.wait()
        if code != 0:
            self.wrong = self.wrong or 'the viewer exited with %s' % code


def opened(widget):
    """The screen, with the functions of interest opened by keys."""
    for _ in range(9):
        s = screen.Screen(widget, rows=60)
        to = [i for i, r in enumerate(s.rows) if r['mark'] == '+' and re.match('^f[123]$', r['name'] or '')]
        if not to:
            break
        screen.press(widget, 'esc', rows=60)
        for _ in range(to[0] + 1):
            widget.render((110, 60), focus=True)
            screen.press(widget, 'down', rows=60)
        screen.press(widget, 'right', rows=60)
    return s


def drive(fd):
    """Makes the viewers of this process listen to the driver."""
    import urwid

    def run_loop(loop):
        sock = socket.socket(fileno=fd)
        buf = [b'']

        def handle():
            x = sock.recv(4096)
            if not x:
                raise urwid.ExitMainLoop
            buf[0] += x
            while b'\n' in buf[0]:
                x, buf[0] = buf[0].split(b'\n', 1)
                op = json.loads(x.decode())[0]
                if op == 'quit':
                    raise urwid.ExitMainLoop
                elif op == 'int':
                    raise KeyboardInterrupt
                s = opened(loop.widget)
                sock.sendall((json.dumps(dict(head=s.head, state=s.state, rows=[[r['depth'], r['name'], r['loc']] for r in s.rows])) + '\n').encode())
        loop.event_loop.watch_file(sock.fileno(), handle)
        loop.event_loop.run()
    urwid.MainLoop.run = run_loop


class Command(object):
    """A command of profiling that runs: forked, or a fresh interpreter."""

    def __init__(self, job, name, args, view=None, keep=(), fresh=False, stdin='/dev/null'):
        self.name, self.code = name, None
        keep = list(keep) + ([view.other.fileno()] if view else [])
        if fresh:
            with open(name + '.in', 'w') as f:
                json.dump([args, view.other.fileno() if view else None], f)
            self.proc = subprocess.Popen([sys.executable, '--jit', 'off', '-W', 'ignore', os.path.abspath(__file__), 'command', name + '.in'],
                                         stdin=open(stdin), stdout=open(name + '.out', 'w'), stderr=open(name + '.err', 'w'), pass_fds=keep,
                                         env=dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.abspath(__file__)), os.environ.get('PYTHONPATH', '')])))
            self.pid = self.proc.pid
            return
        self.proc = None
        self.pid = os.fork()
        if not self.pid:
            code = 70
            try:
                for fd, path, flags in ((0, stdin, os.O_RDONLY), (1, name + '.out', os.O_WRONLY | os.O_CREAT), (2, name + '.err', os.O_WRONLY | os.O_CREAT)):
                    os.dup2(os.open(path, flags, 0o600), fd)
                for fd in job.fds():
                    if fd not in keep:
                        os.close(fd)
                if view:
                    drive(view.other.fileno())
                code = self.run(args)
            finally:
                os._exit(code)

    @staticmethod
    def run(args):
        """As the interpreter would."""
        import threading, traceback
        from profiling.__main__ import cli
        try:
            cli.main(args, prog_name='profiling')
            code = 0
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                sys.stderr.write(str(code) + '\n')
                code = 1
        except BaseException:
            traceback.print_exc()
            code = 1
        threading._shutdown()
        for f in (sys.stdout, sys.stderr):
            f.flush()
        return code

    def ended(self):
        if self.code is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.code = -(status & 127) if status & 127 else status >> 8
                if self.proc:
                    self.proc.returncode = self.code
        return self.code is not None

    def wait(self, patience=PATIENCE):
        end = time.time() + patience
        while not self.ended():
            if time.time() > end:
                return None
            time.sleep(.004)
        return self.code

    def kill(self):
        if not self.ended():
            os.kill(self.pid, signal.SIGKILL)
            self.wait()

    def text(self, ext):
        with open(self.name + ext, errors='replace') as f:
            return f.read()


def errors(text):
    """How many of the lines were written, whole."""
    return len(re.findall('^err x+$', text, re.M))


class Job(object):
    def __init__(self, item, k):
        self.item, self.k, self.live = item, k, item['live']
        self.rng = random.Random(item['seed'])
        self.dir = os.path.join(SCRATCH, 'remote%d-%d' % (os.getpid(), k))
        os.mkdir(self.dir)
        os.chdir(self.dir)
        self.dir = os.getcwd()
        os.environ['VERIF_GREETING'] = 'hello %d' % k
        self.n, self.pid, self.last = 0, None, None
        self.clients, self.gone, self.seen = {}, [], {}
        self.link = Link('program')
        self.viewer = None
        self.class_name = 'TracingProfiler' if item['profiler'] == 'tracing' else 'SamplingProfiler'
        self.head = 'tracing' if item['profiler'] == 'tracing' else 'sampling'
        with open('stdin', 'w') as f:
            f.write(''.join('line%d\n' % i for i in range(500)))
        self.begin()

    def number(self):
        self.n += 1
        return self.n

    def fds(self):
        """What the driver keeps for itself."""
        res = [self.link.sock.fileno(), self.link.other.fileno()]
        for c in self.clients.values():
            if not c.view:
                res.append(c.sock.fileno())
            elif c.link.sock.fileno() >= 0:
                res.append(c.link.sock.fileno())
        return [fd for fd in res if fd >= 0]

    def begin(self):
        item, rng = self.item, self.rng
        fd = self.link.other.fileno()
        text = PROGRAM % dict(fd=fd, idle='gevent' if item['spawn'] == 'gevent' else rng.choice(['select', 'read', 'sleep']), patience=PATIENCE)
        if item['kind'] == 'command':
            src = ['-c', text]
        else:
            with open('prog.py', 'w') as f:
                f.write(text)
            src = ['-m', 'prog'] if item['kind'] == 'module' else [rng.choice(['prog.py', os.path.join(self.dir, 'prog.py')])]
        opts = list({'tracing': rng.choice([[], ['-T'], ['--timer', 'thread']]), 'itimer': ['-S'], 'sampling': ['-S', '--sampler=tracing']}[item['profiler']])
        opts += ['-i', '%.2f' % rng.uniform(.05, .2)] if rng.random() < .9 else []
        if item['spawn'] or rng.random() < .3:
            opts += ['--spawn', item['spawn'] or 'threading']
        if rng.random() < .4:
            opts += ['--signum', rng.choice(['SIGUSR1', 'usr1', '12', 'SIGHUP', 'SIGALRM'])]
        from profiling import remote
        self.protocol = remote.PICKLE_PROTOCOL
        if rng.random() < .4:
            self.protocol = rng.randint(0, 5)
            opts += ['--pickle-protocol', str(self.protocol)]
        args = rng.choice([['a'], [], ['a b', 'c'], ['--', '-x', 'y']])
        self.argv = [a for a in args if a != '--']
        keep, view = [fd], None
        if self.live:
            self.link.alive = lambda: self.pid is None and not self.proc.ended() or self.pid is not None and not dead(self.pid)
            self.viewer = View.__new__(View)
            self.viewer.__dict__.update(job=self, c=1, wrong='', told=[], news=set(), hits={}, head=None, state=None)
            view = self.viewer.link = Link('viewer', lambda: not self.proc.ended())
            args = [rng.choice(['live', 'live-profile'])] + opts + src + args
            self.clients[1] = self.viewer
        else:
            self.link.alive = lambda: not self.proc.ended()
            # a loopback address of its own
            pid = os.getpid()
            self.addr = ('127.%d.%d.%d' % (1 + pid % 250, 1 + pid // 250 % 250, 1 + self.k % 250), 8912 + self.k // 250)
            opts += ['-b', '%s:%d' % self.addr] + (['-v'] if rng.random() < .5 else [])
            args = [rng.choice(['remote', 'remote-profile'])] + opts + src + args
        self.proc = Command(self, 'main', args, view, keep, item['fresh'], 'stdin')
        if view:
            self.viewer.proc = self.proc
            view.other.close()
        self.link.other.close()
        self.args = args

    # -- steps ------------------------------------------------------------------

    def connected(self):
        return list(self.clients.values())

    def until(self, cond, patience=PATIENCE):
        end = time.time() + patience
        while True:
            if cond():
                return True
            if time.time() > end:
                return False
            time.sleep(.02)

    def step(self, op, ev):
        k = op[0]
        if k == 'connect':
            c = op[1]
            if op[2] == 'view':
                client = View(self, c, ['view', '%s:%d' % self.addr], fresh=self.item['fresh'] and self.rng.random() < .3)
            else:
                client = Raw(self, c, self.addr)
            self.clients[c] = client
            ev['ok'] = self.until(client.greeted)
        elif k == 'leave':
            client = self.clients.pop(op[1])
            client.pump()
            client.leave(op[2])
            self.gone.append(client)
        elif k == 'hasty':
            for i in range(3):
                s = socket.socket()
                s.settimeout(PATIENCE)
                s.connect(self.addr)
                if self.rng.random() < .5:
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                s.close()
        elif k == 'look':
            def learned():
                for x in self.connected():
                    x.pump()
                return all(tuple(self.cur) in x.news for x in self.connected())
            ok = self.until(learned)
            ev['learned'] = [x.c for x in self.connected() if tuple(self.cur) in x.news]
        elif k == 'work':
            for x in self.connected():
                if not x.view:
                    x.pump()
                x.news = set()
            self.cur = op[1]
            ev['count'] = self.link.ask('work', op[1])['count']
        elif k == 'rest':
            ev['count'] = self.link.ask('rest', 0)['count']
        elif k in ('on', 'off'):
            ev['ok'] = self.link.ask(k, 0)['ok']
        elif k == 'see':
            n = self.seen[op[1]] = self.seen.get(op[1], 0) + 1
            ev['what'] = op[1]
            ev['got'] = self.link.ask('see', op[1])['got']
            ev['want'] = {'argv': repr(self.argv), 'name': '__main__', 'main': 'True', 'cwd': self.dir, 'own': 'True', 'sleep': 'True',
                          'read': '' if self.live else 'line%d' % (n - 1), 'global': str(n), 'env': os.environ['VERIF_GREETING'],
                          'thread': 'True', 'child': '7'}.get(op[1], '')
        elif k == 'err':
            self.link.ask('err', op[1])
        elif k == 'end':
            self.end(op, ev)
        elif k == 'close':
            self.close(ev)

    def begun(self, ev):
        self.pid = self.link.answer('begin')['pid']
        ev['ok'] = not self.live or self.until(self.viewer.greeted)
        if not ev['ok']:
            ev['crash'] = self.proc.text('.err')[-600:]

    CODES = {0: 'return', 3: 'exit', 1: 'raise', 5: '_exit', -9: 'kill', -15: 'term', 137: 'kill', 143: 'term'}

    def printed(self, ev):
        n = len(re.findall('^out$', self.proc.text('.out'), re.M))
        ev['got'], ev['want'] = 'printed %d' % n, 'printed %d' % (0 if self.live else self.seen.get('print', 0))

    def wrote(self, ev):
        text = self.proc.text('.err')
        ev['errs'] = errors(text)
        ev['trace'] = bool(re.search('^ValueError: boom$', text, re.M))
        if len(re.findall('^Traceback', text, re.M)) > ev['trace']:
            ev['crash'] = 'another traceback: ' + text[-600:]

    def end(self, op, ev):
        for x in self.connected():
            x.pump()
        ev['count'] = self.link.ask('end', op[1])['count']
        if self.live:
            ev['ok'] = self.until(lambda: dead(self.pid))
            if not ev['ok']:
                ev['crash'] = 'the program does not end'
        else:
            code = self.proc.wait()
            ev['status'] = self.CODES.get(code, str(code))
            if code is None:
                ev['crash'] = 'the program does not end'
                return
            self.wrote(ev)
        self.printed(ev)
        def noticed():
            for x in self.connected():
                x.pump()
            return all(x.lost for x in self.connected())
        ev['ok'] = self.until(noticed)

    def close(self, ev):
        self.viewer.pump()
        self.viewer.link.sock.sendall((json.dumps([ev['arg']]) + '\n').encode())
        code = self.proc.wait()
        ev['status'] = self.CODES.get(code, str(code))
        ev['ok'] = code is not None and self.until(lambda: dead(self.pid))
        self.wrote(ev)
        self.clients.clear()
        self.gone.append(self.viewer)

    def run(self):
        trace = []
        for op in [['begin', 0]] + self.item['ops']:
            ev = dict(op=op[0], arg=op[1] if len(op) > 1 else 0, crash='', ok=True, wrong='', told=[], hits=[], learned=[], got='', want='', what='',
                      count=0, status='', errs=0, trace=False, kind=self.item['profiler'], live=self.live)
            try:
                if op[0] == 'begin':
                    self.begun(ev)
                else:
                    self.step(op, ev)
                for x in self.connected():
                    if not x.view:
                        x.pump()
            except Lost as e:
                ev['crash'] = '%s; %s' % (e, self.proc.text('.err')[-600:])
            except OSError as e:
                ev['crash'] = '%s: %s; %s' % (type(e).__name__, e, self.proc.text('.err')[-600:])
            for x in self.connected() + self.gone:
                ev['wrong'] = ev['wrong'] or x.wrong
                paths = set(tuple(y) for p in x.told for y in p)
                if paths:
                    ev['told'].append(dict(c=x.c, paths=sorted(paths)))
                x.told = []
                if ev['op'] in ('rest', 'end'):
                    ev['hits'] += [dict(p=list(p), n=n) for p, n in x.hits.items()]
            trace.append(ev)
            if ev['crash']:
                break
        self.results = sum(getattr(x, 'results', 0) for x in self.connected() + self.gone)
        trace[-1]['results'] = self.results
        return trace

    def stop(self):
        for x in self.connected():
            if x.view:
                x.proc.kill()
            else:
                x.sock.close()
        if self.pid and not dead(self.pid) and self.live:
            os.kill(self.pid, signal.SIGKILL)
        self.proc.kill()
        for x in self.connected() + self.gone:
            if x.view:
                x.link.sock.close()
        self.link.sock.close()


def play(item, k):
    job = Job(item, k)
    try:
        return job.run()
    finally:
        job.stop()
        os.chdir(SCRATCH)
        if not os.environ.get('VERIF_KEEP_JOBS'):
            shutil.rmtree(job.dir)


def run(payload):
    import profiling.__main__, urwid  # once, before the forks
    return [play(x, k) for k, x in enumerate(payload)]


if __name__ == '__main__':
    if sys.argv[1] == 'command':
        with open(sys.argv[2]) as f:
            args, view = json.load(f)
        if view is not None:
            drive(view)
        from profiling.__main__ import cli
        cli(args, prog_name='profiling')
    else:
        main(run)
