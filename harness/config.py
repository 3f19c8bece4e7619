"""Runs real commands of the command line interface, each in a process of its
own, with configuration files in their directory; records whether they were
rejected and the settings they ran with."""
import errno, json, os, random, shutil, signal, socket, sys, time, types
from hlib import main

SCRATCH = os.environ['VERIF_SCRATCH']
OPTIONS = ['profiler', 'timer', 'sampler', 'sampling_interval', 'pickle_protocol', 'interval', 'spawn', 'signum', 'endpoint']
NAMES = {'profile': ['', 'profile'], 'timeit': ['timeit', 'timeit-profile'], 'live': ['live', 'live-profile'],
         'remote': ['remote', 'remote-profile'], 'view': ['view']}
SHORT = {'interval': '-i', 'endpoint': '-b'}
LONG = {'endpoint': '--bind'}


def write_files(rng, values):
    for name in ('.profiling', 'setup.cfg'):
        own = [(o.replace('_', '-'), v) for o, v in values[name].items() if v]
        if not own and rng.random() < .5:
            if os.path.exists(name):
                os.remove(name)
            continue
        rng.shuffle(own)
        other = '[flake8]\ntimer = thread\nspawn: gevent\n\n' if rng.random() < .3 else ''
        tail = '\n[profilers]\nprofiler = sampling\nsampler = tracing\n' if rng.random() < .3 else ''
        body = ''
        if own or rng.random() < .5:
            body = '[profiling]\n' + ''.join('%s%s%s\n' % (k if rng.random() < .8 else k.upper(), rng.choice([' = ', ': ', '=']), v) for k, v in own)
        with open(name, 'w') as f:
            f.write(other + body + tail)


def command_line(rng, cmd, cli, pickles):
    opts = []
    for o, v in cli.items():
        if not v or (cmd == 'view'):
            continue
        if o == 'profiler':
            opts.append([rng.choice({'tracing': ['-T', '--tracing'], 'sampling': ['-S', '--sampling']}[v])])
        else:
            name = LONG.get(o, '--' + o.replace('_', '-'))
            if o in SHORT and rng.random() < .5:
                opts.append([SHORT[o], v])
            else:
                opts.append(rng.choice([[name, v], [name + '=' + v]]))
    if cmd in ('profile', 'timeit') and pickles:
        opts.append(rng.choice([['-d', 'dump'], ['--dump', 'dump'], ['--dump=dump']]))
    if cmd == 'timeit':
        opts.append(['-n', '2'])
    rng.shuffle(opts)
    first = [rng.choice(NAMES[cmd])]
    if cmd == 'view':
        args = [cli['endpoint']] if cli['endpoint'] else []
    elif cmd == 'timeit':
        args = ['import cfgstate; cfgstate.program()']
    else:
        args = rng.choice([['prog.py'], ['./prog.py', 'arg', '8'], ['prog.py', '--', '--timer', 'no'], ['-m', 'progmod'],
                           ['-c', 'import cfgstate; cfgstate.program()']])
    if args and args[0].endswith('.py') and '--' not in args and rng.random() < .4:
        args = args + sum(opts, [])        # as in: remote-profile webserver.py --bind ...
    else:
        args = sum(opts, []) + args
    if not first[0] and args[0] in sum(NAMES.values(), []):
        first = ['profile']
    args = first + args
    return [a for a in args if a]


def has(what):
    with open('log', 'rb') as f:
        return what in f.read()


class Child(object):
    """What happens in the process of a command."""

    def __init__(self, cmd):
        self.cmd = cmd
        self.fd = os.open('log', os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        self.served = False

    def log(self, **what):
        os.write(self.fd, (json.dumps(what) + '\n').encode())

    def settings(self, profiler):
        from profiling.sampling import SamplingProfiler, samplers
        from profiling.tracing import TracingProfiler, timers
        if isinstance(profiler, TracingProfiler):
            t = {timers.Timer: 'basic', timers.ThreadTimer: 'thread', timers.GreenletTimer: 'greenlet'}
            return dict(profiler='tracing', timer=t.get(type(profiler.timer), 'other'))
        if isinstance(profiler, SamplingProfiler):
            t = {samplers.ItimerSampler: 'itimer', samplers.TracingSampler: 'tracing'}
            return dict(profiler='sampling', sampler=t.get(type(profiler.sampler), 'other'),
                        sampling_interval=repr(float(profiler.sampler.interval)))
        return dict(profiler='other')

    def program(self):
        sig = [n for n in range(1, signal.NSIG) if n not in (signal.SIGPROF, signal.SIGKILL, signal.SIGSTOP)
               and signal.getsignal(n) not in (signal.SIG_DFL, signal.SIG_IGN, None, signal.default_int_handler)]
        if self.cmd in ('live', 'remote'):
            end = time.time() + 5
            while not self.served and time.time() < end:
                if 'gevent' in sys.modules:
                    sys.modules['gevent'].sleep(.005)
                else:
                    time.sleep(.005)
            self.log(signum=str(sig[0]) if len(sig) == 1 else repr(sig))
        self.log(program=True, ended=True)

    def patch(self):
        import threading
        import urwid
        from profiling.profiler import Profiler
        from profiling.remote.select import SelectProfilingServer
        from profiling.utils import Runnable
        child = self
        mod = types.ModuleType('cfgstate')
        mod.program = self.program
        sys.modules['cfgstate'] = mod
        start = Runnable.start

        def profiler_start(self, *args, **kwargs):
            if child.cmd in ('profile', 'timeit') and isinstance(self, Profiler):
                child.log(**child.settings(self))
            return start(self, *args, **kwargs)
        Runnable.start = profiler_start

        def serve(self, *args):
            how = 'other'
            if threading.current_thread() is not threading.main_thread():
                how = 'threading'
            elif 'gevent' in sys.modules:
                import gevent
                how = 'gevent' if isinstance(gevent.getcurrent(), gevent.Greenlet) else 'main'
            child.log(spawn=how, interval=repr(float(self.interval)), pickle_protocol=str(self.pickle_protocol),
                      **child.settings(self.profiler.profiler))
            child.served = True
        SelectProfilingServer.serve_forever = SelectProfilingServer.connected = serve

        def address(self, addr):
            child.log(endpoint='%s:%s' % addr)
            return errno.ECONNREFUSED
        if self.cmd == 'remote':
            socket.socket.bind = lambda self, addr: address(self, addr) and None
        elif self.cmd == 'view':
            socket.socket.connect_ex = address

        def run_loop(loop):
            if child.cmd == 'view':
                def leave():
                    raise urwid.ExitMainLoop
                loop.event_loop.alarm(.02, leave)
                loop.event_loop.run()
                child.log(program=True)
            elif child.cmd == 'live':
                end = time.time() + 8
                while time.time() < end and not has(b'"ended"'):
                    time.sleep(.005)
        urwid.MainLoop.run = run_loop

    def run(self, args):
        out = os.open('output', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(out, 1), os.dup2(out, 2)
        self.patch()
        from profiling.__main__ import cli
        try:
            cli.main(args, prog_name='profiling')
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 1
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush()
            except Exception:
                pass
        os._exit(code)


def protocol_of(path):
    import pickletools
    with open(path, 'rb') as f:
        return str(max([op.proto if op.name != 'PROTO' else arg for op, arg, _ in pickletools.genops(f.read())]))


def run_command(rng, cmd, cli, pickles):
    for f in ('log', 'dump', 'output'):
        if os.path.exists(f):
            os.remove(f)
    args = command_line(rng, cmd, cli, pickles)
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        try:
            Child(cmd).run(args)
        finally:
            os._exit(3)
    end, status = time.time() + 20, None
    while status is None:
        got, st = os.waitpid(pid, os.WNOHANG)
        if got:
            status = st
        elif time.time() > end:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            status = 'hung'
        else:
            time.sleep(.002)
    with open('output', errors='replace') as f:
        output = f.read()
    effect = dict.fromkeys(OPTIONS, '')
    program = False
    if os.path.exists('log'):
        with open('log') as f:
            for line in f:
                d = json.loads(line)
                program = d.pop('program', False) or program
                d.pop('ended', 0)
                for k, v in d.items():
                    effect[k] = v if effect[k] in ('', v) else effect[k] + '/' + v
    if os.path.exists('dump'):
        effect['pickle_protocol'] = protocol_of('dump')
    code = os.WEXITSTATUS(status) if status != 'hung' and os.WIFEXITED(status) else status
    out = 'ran' if code == 0 else 'usage' if code == 2 and 'Error' in output else 'exit %s' % code
    return dict(op='run', cmd=cmd, cli=cli, pickles=bool(pickles or cmd in ('live', 'remote')), out=out, program=program,
                effect=effect, args=args, tail=output[-600:] if out != 'ran' else '')


def play(item, k):
    rng = random.Random(item['seed'])
    d = os.path.join(SCRATCH, 'dir%d' % k)
    os.makedirs(d)
    os.chdir(d)
    with open('prog.py', 'w') as f:
        f.write('import cfgstate\ncfgstate.program()\n')
    shutil.copy('prog.py', 'progmod.py')
    values = {'.profiling': dict.fromkeys(OPTIONS, ''), 'setup.cfg': dict.fromkeys(OPTIONS, '')}
    trace = []
    for op in item['ops']:
        if op[0] == 'write':
            values[op[1]][op[2]] = op[3]
            write_files(rng, values)
            trace.append(dict(op='write', file=op[1], option=op[2], value=op[3]))
        else:
            trace.append(run_command(rng, op[1], op[2], op[3]))
    os.chdir(SCRATCH)
    shutil.rmtree(d)
    return trace


def run(payload):
    import profiling.__main__, urwid  # once, before the forks
    return [play(x, k) for k, x in enumerate(payload)]


if __name__ == '__main__':
    main(run)
