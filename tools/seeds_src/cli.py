M = 'profiling/__main__.py'
RUN = '''
import json, os, pickle, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
DIR = tempfile.mkdtemp()
import atexit
atexit.register(shutil.rmtree, DIR, True)
ENV = dict(os.environ, PYTHONPATH=REPO, LC_ALL='C.UTF-8', LANG='C.UTF-8')
def write(name, data):
    p = os.path.join(DIR, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'wb') as f:
        f.write(data if isinstance(data, bytes) else data.encode('utf-8'))
    return p
def run(*args, **kw):
    cmd = [sys.executable, '--jit', 'off', '-m', 'profiling'] + list(args)
    p = subprocess.Popen(cmd, cwd=DIR, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        out, err = p.communicate(timeout=kw.get('timeout', 60))
    except subprocess.TimeoutExpired:
        p.kill()
        raise
    return p.returncode, out.decode(), err.decode()
def load(name='out'):
    with open(os.path.join(DIR, name), 'rb') as f:
        return pickle.load(f)
def names(stats):
    return [s.name or '' for s in stats] + [n for s in stats for n in names(s)]
'''
SEEDS = [
dict(id='c25-exit-quits', property='C25',
     edits=[(M, """    except BaseException:
        # don't profile print_exc().
        profiler.stop()
        traceback.print_exc()
""", """    except SystemExit:
        # the program is done.
        profiler.stop()
        if dump_filename is None:
            raise
    except BaseException:
        # don't profile print_exc().
        profiler.stop()
        traceback.print_exc()
""")],
     needs='a program that ends by sys.exit() when the result goes to the viewer', breaks='The result of a program that exits is never shown.',
     demo=RUN + '''
import pty, select, time
write('prog.py', 'import sys\\ndef work(): pass\\nwork()\\nsys.exit(3)\\n')
pid, fd = pty.fork()
if pid:
    import fcntl, struct, termios
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 100, 0, 0))
else:
    time.sleep(.3)
    os.chdir(DIR)
    os.environ.update(ENV, TERM='xterm')
    os.execv(sys.executable, [sys.executable, '--jit', 'off', '-m', 'profiling', 'prog.py'])
data, end = b'', time.time() + 40
while time.time() < end and b'FUNCTION' not in data:
    if select.select([fd], [], [], 1)[0]:
        try:
            x = os.read(fd, 65536)
        except OSError:
            break
        data += x
import signal
try:
    os.kill(pid, signal.SIGKILL)
except OSError:
    pass
os.waitpid(pid, 0)
assert b'FUNCTION' in data, data
'''),
dict(id='c25-source-text', property='C25',
     edits=[(M, "        super(Script, self).__init__('rb')", "        super(Script, self).__init__('r')")],
     needs='a script in another encoding than that of the environment, which it declares', breaks='A script that Python runs is refused or its text is garbled.',
     demo=RUN + '''
write('prog.py', b"# -*- coding: latin-1 -*-\\nx = '\\xe9'\\nassert ord(x) == 233 and len(x) == 1\\nopen('ok', 'w').close()\\n")
run('-d', 'out', 'prog.py')
assert os.path.exists(os.path.join(DIR, 'ok'))
load()
'''),
dict(id='c25-exception-profiled', property='C25',
     edits=[(M, """        # don't profile print_exc().
        profiler.stop()
        traceback.print_exc()
    else:
        profiler.stop()
""", """        traceback.print_exc()
    profiler.stop()
""")],
     needs='a program that ends by an exception', breaks='The functions that print the traceback appear in the result.',
     demo=RUN + '''
write('prog.py', 'def work(): raise ValueError()\\nwork()\\n')
code, out, err = run('-d', 'out', 'prog.py')
assert 'ValueError' in err
assert not [n for n in names(load()[1][0]) if 'print_exc' in n or 'traceback' in n.lower()], names(load()[1][0])
'''),
dict(id='c25-timeit-lines', property='C25',
     edits=[(M, "    exec_(setup, globals_)\n", "    exec_(setup, globals_)\n    # no matter how the lines end.\n    stmt = '\\n'.join(stmt.splitlines())\n")],
     needs='a timeit statement with another line-breaking character within a string', breaks='The statement is cut in the middle of a string and not executed.',
     demo=RUN + '''
write('record.py', 'SEEN = []\\ndef see(x):\\n    open("seen", "a").write(x + ".")\\n')
run('timeit', '-n', '2', '-r', '1', '-s', 'import record', '-d', 'out', 'record.see("a\\x0cb")')
assert open(os.path.join(DIR, 'seen')).read() == 'a\\x0cb.' * 2
'''),
dict(id='c25-unpickled-dump', property='C25',
     edits=[('profiling/profiler.py', "        with open(dump_filename, 'wb') as f:\n", "        with open(dump_filename, 'ab') as f:\n")],
     needs='a dump file that exists already', breaks='The file keeps an earlier result before the new one, which is never read.',
     demo=RUN + '''
write('a.py', 'def first(): pass\\nfirst()\\n')
write('b.py', 'def second(): pass\\nsecond()\\n')
run('-d', 'out', 'a.py')
run('-d', 'out', 'b.py')
assert 'second' in names(load()[1][0]), names(load()[1][0])
'''),
dict(id='c26-live-signum', property='C26',
     edits=[(M, """        profiler_trigger = BackgroundProfiler(profiler, signum)
        profiler_trigger.prepare()
        server_args = (interval, noop, pickle_protocol)
""", """        profiler_trigger = BackgroundProfiler(profiler)
        profiler_trigger.prepare()
        server_args = (interval, noop, pickle_protocol)
""")],
     needs='live-profile with another signal number', breaks='The given signal number is ignored by live-profile, which occupies SIGUSR2.',
     demo=RUN + '''
import pty, select, time, signal
write('prog.py', 'import signal\\nopen("seen.tmp", "w").write("%s %s" % (callable(signal.getsignal(signal.SIGUSR1)), callable(signal.getsignal(signal.SIGUSR2))))\\nimport os\\nos.rename("seen.tmp", "seen")\\n')
pid, fd = pty.fork()
if pid:
    import fcntl, struct, termios
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 100, 0, 0))
else:
    time.sleep(.3)
    os.chdir(DIR)
    os.environ.update(ENV, TERM='xterm')
    os.execv(sys.executable, [sys.executable, '--jit', 'off', '-m', 'profiling', 'live', '--signum', 'USR1', 'prog.py'])
end = time.time() + 40
while time.time() < end and not os.path.exists(os.path.join(DIR, 'seen')):
    if select.select([fd], [], [], .2)[0]:
        try:
            os.read(fd, 65536)
        except OSError:
            break
try:
    os.kill(pid, signal.SIGKILL)
except OSError:
    pass
os.waitpid(pid, 0)
assert open(os.path.join(DIR, 'seen')).read() == 'True False', open(os.path.join(DIR, 'seen')).read()
'''),
dict(id='c26-timeit-protocol', property='C26',
     edits=[(M, """    __profile__(stmt, code, globals_, profiler_factory,
                pickle_protocol=pickle_protocol, dump_filename=dump_filename,
                mono=mono)
""", """    __profile__(stmt, code, globals_, profiler_factory,
                dump_filename=dump_filename, mono=mono)
""")],
     needs='timeit with another pickle protocol', breaks='timeit dumps with the default protocol whatever is asked for.',
     demo=RUN + '''
import pickletools
run('timeit', '-n', '1', '--pickle-protocol', '0', '-d', 'out', 'pass')
protos = [a for op, a, p in pickletools.genops(open(os.path.join(DIR, 'out'), 'rb').read()) if op.name == 'PROTO']
assert not protos, protos
'''),
dict(id='c26-tracing-interval', property='C26',
     edits=[(M, "            sampler = sampler_class(sampling_interval)\n", "            sampler = sampler_class()\n            if isinstance(sampler, sampling.SAMPLER_CLASS):\n                sampler.interval = sampling_interval\n")],
     needs='the tracing sampler with another interval', breaks='The tracing sampler ignores the sampling interval.',
     demo=RUN + '''
from profiling import __main__ as m
write('conf.py', """
from profiling import __main__ as m
from profiling.sampling import samplers
import click
@click.command()
@m.profiler_options
def show(profiler_factory, **kw):
    print(profiler_factory.keywords['sampler'].interval)
show(['-S', '--sampler', 'tracing', '--sampling-interval', '0.25'])
""")
p = subprocess.run([sys.executable, os.path.join(DIR, 'conf.py')], cwd=DIR, env=ENV, stdout=subprocess.PIPE)
assert p.stdout.strip() == b'0.25', p.stdout
'''),
dict(id='c26-view-endpoint', property='C26',
     edits=[(M, """@click.argument('src', type=ViewerSource(),
                default=config_default('endpoint', DEFAULT_ENDPOINT))
""", """@click.argument('src', type=ViewerSource(), default=DEFAULT_ENDPOINT)
""")],
     needs='an endpoint in the configuration and `profiling view` without a source', breaks='The viewer connects to the default endpoint instead of the configured one.',
     demo=RUN + '''
import pty, select, signal, socket, time
s = socket.socket()
s.bind(('127.0.0.1', 0))
s.listen(1)
s.settimeout(15)
write('.profiling', '[profiling]\\nendpoint = 127.0.0.1:%d\\n' % s.getsockname()[1])
pid, fd = pty.fork()
if pid:
    import fcntl, struct, termios
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 100, 0, 0))
else:
    time.sleep(.3)
    os.chdir(DIR)
    os.environ.update(ENV, TERM='xterm')
    os.execv(sys.executable, [sys.executable, '--jit', 'off', '-m', 'profiling', 'view'])
try:
    s.accept()
finally:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
'''),
dict(id='c27-remote-quiet-error', property='C27',
     edits=[(M, """    try:
        exec_(code, globals_)
    except KeyboardInterrupt:
        pass
""", """    try:
        exec_(code, globals_)
    except (KeyboardInterrupt, SystemExit):
        pass
    finally:
        listener.close()
""")],
     needs='a program under remote-profile that exits with a status', breaks='The exit status of the program is lost.',
     demo=RUN + '''
write('prog.py', 'import sys\\nsys.exit(3)\\n')
assert run('remote', '-b', '127.0.0.1:0', 'prog.py')[0] == 3
'''),
dict(id='c27-stdin-eaten', property='C27',
     edits=[(M, "        for f in [sys.stdin, sys.stdout]:\n            os.dup2(devnull, f.fileno())\n", "        for f in [sys.stdout]:\n            os.dup2(devnull, f.fileno())\n")],
     needs='a program under live-profile that reads its standard input', breaks='The program waits for, and eats, the keys the user presses in the viewer.',
     demo=RUN + '''
import pty, select, time, signal
write('prog.py', 'import sys, os\\ndata = sys.stdin.read()\\nopen("seen.tmp", "w").write(repr(data))\\nos.rename("seen.tmp", "seen")\\n')
pid, fd = pty.fork()
if pid:
    import fcntl, struct, termios
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 100, 0, 0))
else:
    time.sleep(.3)
    os.chdir(DIR)
    os.environ.update(ENV, TERM='xterm')
    os.execv(sys.executable, [sys.executable, '--jit', 'off', '-m', 'profiling', 'live', 'prog.py'])
end = time.time() + 15
while time.time() < end and not os.path.exists(os.path.join(DIR, 'seen')):
    if select.select([fd], [], [], .2)[0]:
        try:
            os.read(fd, 65536)
        except OSError:
            break
ok = os.path.exists(os.path.join(DIR, 'seen'))
try:
    os.killpg(pid, signal.SIGKILL)
except OSError:
    pass
os.waitpid(pid, 0)
assert ok
'''),
dict(id='c27-silent-status', property='C27',
     edits=[(M, "        # exit with exit code of child.\n        sys.exit(exit_code)\n", "        # exit with exit code of child.\n        if any(child_stderr):\n            sys.exit(exit_code)\n")],
     needs='a program under live-profile that fails without a word', breaks='live-profile succeeds though the program failed.',
     demo=RUN + '''
import pty, select, time, signal
write('prog.py', 'import os\\nos._exit(3)\\n')
pid, fd = pty.fork()
if pid:
    import fcntl, struct, termios
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack('HHHH', 40, 100, 0, 0))
else:
    time.sleep(.3)
    os.chdir(DIR)
    os.environ.update(ENV, TERM='xterm')
    os.execv(sys.executable, [sys.executable, '--jit', 'off', '-m', 'profiling', 'live', 'prog.py'])
end, sent = time.time() + 40, 0
time.sleep(4)
status = None
while time.time() < end and status is None:
    if select.select([fd], [], [], .2)[0]:
        try:
            os.read(fd, 65536)
        except OSError:
            pass
    if time.time() - sent > 1:
        sent = time.time()
        try:
            os.write(fd, b'q')
        except OSError:
            pass
    p, st = os.waitpid(pid, os.WNOHANG)
    if p:
        status = st
if status is None:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
assert status is not None and os.WEXITSTATUS(status) == 3, status
'''),
dict(id='c27-gevent-blocks', property='C27',
     edits=[(M, "        gevent.monkey.patch_select()\n        gevent.monkey.patch_socket()\n        return gevent.spawn", "        gevent.monkey.patch_socket()\n        return gevent.spawn")],
     needs='--spawn gevent and a program that lets other greenlets run', breaks='The server keeps the only thread to itself while it waits for clients, so the program stands still.',
     demo=RUN + """
write('prog.py', 'import gevent\\nfor x in range(3): gevent.sleep(.01)\\nopen("ok", "w").close()\\n')
try:
    run('remote', '--spawn', 'gevent', '-b', '127.0.0.1:0', 'prog.py', timeout=20)
except subprocess.TimeoutExpired:
    pass
assert os.path.exists(os.path.join(DIR, 'ok'))
"""),
]
