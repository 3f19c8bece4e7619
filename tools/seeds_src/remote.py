R = 'profiling/remote/__init__.py'
STUB = '''
import socket
from profiling.remote import ProfilingServer, recv_msg
from profiling.profiler import Profiler, ProfilerWrapper
class P(Profiler):
    n = 0
    size = 0
    def run(self):
        yield
    def result(self):
        self.n += 1
        return self.n, 'x' * self.size, 0
class Server(ProfilingServer):
    loop = None
    def _send(self, c, data):
        c.append(data)
    def _close(self, c):
        pass
    def _addr(self, c):
        return None
    def _start_watching(self, c):
        pass
    def _start_profiling(self):
        self.loop = self.profiling()
        next(self.loop)
class C(list):
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    def messages(self):
        a, b = socket.socketpair()
        a.settimeout(5), b.settimeout(5)
        a.sendall(b''.join(self))
        a.close()
        res = []
        while True:
            try:
                m, x = recv_msg(b)
            except socket.error:
                return res
            res.append(x[0] if m == 0x12 else m)
'''
CLIENT = '''
import os, shutil, socket, struct, sys, tempfile
from profiling.remote import WELCOME, RESULT, PROFILER, pack_msg
from profiling.remote.client import FailoverProfilingClient
class Viewer(object):
    active = False
    def activate(self):
        self.active = True
    def inactivate(self):
        self.active = False
    def set_profiler_class(self, c):
        pass
    def set_result(self, *a):
        self.shown = a
class Loop(object):
    def __init__(self):
        self.files, self.alarms = {}, []
    def watch_file(self, fd, f):
        self.files[fd] = f
    def remove_watch_file(self, fd):
        return self.files.pop(fd, None) is not None
    def alarm(self, delay, f):
        self.alarms.append((delay, f))
    def fire(self):
        (delay, f), = self.alarms
        self.alarms = []
        f()
        return delay
    def handle(self):
        (f,), self.n = list(self.files.values()), len(self.files)
        f()
'''
SEEDS = [
dict(id='c14-dump-append', property='C14',
     edits=[('profiling/profiler.py', "with open(dump_filename, 'wb') as f:", "with open(dump_filename, 'ab') as f:")],
     needs='a dump to a file that there is already', breaks='The file is loaded with the result of the earlier dump.',
     demo='''
import os, pickle, shutil, tempfile
from profiling.profiler import Profiler
class P(Profiler):
    def run(self):
        yield
d = tempfile.mkdtemp()
try:
    p = P()
    for n in (1, 2):
        p.stats.own_hits = n
        p.dump(os.path.join(d, 'f'))
    with open(os.path.join(d, 'f'), 'rb') as f:
        n = pickle.load(f)[1][0].own_hits
finally:
    shutil.rmtree(d)
assert n == 2, n
'''),
dict(id='c14-idle-cpu', property='C14',
     edits=[('profiling/profiler.py', "        self._cpu_time_started = time.clock()\n        self._wall",
             "        if getattr(self, '_cpu_time_stopped', None) is None:\n            self._cpu_time_started = time.clock()\n        else:\n            self._cpu_time_started = self._cpu_time_stopped\n        self._wall")],
     needs='a second session after the program consumed CPU time outside of sessions', breaks='CPU time between the sessions counts for the second one.',
     demo='''
import time
clk = [0]
import profiling.profiler
class T(object):
    time = staticmethod(lambda: clk[0])
    clock = staticmethod(lambda: clk[0])
profiling.profiler.time = T
from profiling.profiler import Profiler
class P(Profiler):
    def run(self):
        yield
p = P()
for n in range(2):
    p.start()
    clk[0] += 1
    p.stop()
    assert p.result()[1:] == (1, 1), p.result()
    clk[0] += 5
'''),
dict(id='c15-buffer', property='C15',
     edits=[(R, """    dump = io.BytesIO()
    pickle.dump(msg, dump, pickle_protocol)
""", """    dump = _dump
    dump.seek(0)
    pickle.dump(msg, dump, pickle_protocol)
"""), (R, "def pack_msg(", """#: The buffer for packing.  It grows up to the size of the largest message.
_dump = io.BytesIO()


def pack_msg(""")],
     needs='a message that is smaller than one packed before', breaks='Rests of the earlier message follow the message; the next one is misread.',
     demo='''
import socket
from profiling.remote import pack_msg, recv_msg
a, b = socket.socketpair()
b.settimeout(10)
for n, m in enumerate(['long' * 100, 'short', 'end']):
    a.sendall(pack_msg(n, m))
    assert recv_msg(b) == (n, m)
'''),
dict(id='c15-makefile', property='C15',
     edits=[(R, """    data = recv(sock, size)
    msg = pickle.loads(data)
""", """    with sock.makefile('rb', min(max(size, 1), 8192)) as f:
        msg = pickle.load(f)
""")],
     needs='another message that arrived already, or a message whose end did not arrive yet', breaks='Bytes of the next message are lost; a cut message is not told as a connection error.',
     demo='''
import socket
from profiling.remote import pack_msg, recv_msg
a, b = socket.socketpair()
a.sendall(pack_msg(1, 'x' * 10000) + pack_msg(2, 'y') + pack_msg(3, 'z' * 100)[:-9])
a.close()
assert recv_msg(b) == (1, 'x' * 10000)
assert recv_msg(b) == (2, 'y')
try:
    recv_msg(b)
except socket.error:
    pass
else:
    assert 0
'''),
dict(id='c16-inner-kind', property='C16',
     edits=[(R, """        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
""", """        try:
            profiler = profiler.profiler
        except AttributeError:
            pass
""")],
     needs='a profiler that is wrapped twice', breaks='The client is told the kind of a wrapper.',
     demo=STUB + '''
class W(ProfilerWrapper):
    def run(self):
        yield
s, c = Server(W(W(P()))), C()
s.connected(c)
assert b'P' in c[1] and b'W' not in c[1].replace(b'Wrapper', b''), c[1]
'''),
dict(id='c17-forgotten', property='C17',
     edits=[(R, """        self._log_profiler_stopped()

    def send_msg""", """        self._log_profiler_stopped()
        # nobody is interested in it any more.
        self._latest_result_data = None

    def send_msg""")],
     needs='a client that connects after all others left', breaks='It does not get the latest result at first.',
     demo=STUB + '''
s, a, b = Server(P()), C(), C()
s.connected(a)
next(s.loop)
s.disconnected(a)
try:
    next(s.loop)
except StopIteration:
    pass
latest = s.profiler.n
s.connected(b)
assert b.messages()[:3] == [0x10, 0x11, latest], b.messages()
'''),
dict(id='c17-busy', property='C17',
     edits=[('profiling/remote/asyncio.py', "        writer.write(data)\n", """        if writer.transport.get_write_buffer_size() > 65536:
            # the client is slower than the profiler.
            return
        writer.write(data)
""")],
     needs='a large result when the client connects or is not quick enough', breaks='The client misses results.',
     demo='''
import asyncio, socket, threading
from profiling.profiler import Profiler
from profiling.remote import recv_msg
from profiling.remote.asyncio import AsyncIOProfilingServer
class P(Profiler):
    n = 0
    def run(self):
        yield
    def result(self):
        self.n += 1
        return self.n, 'x' * 1000000
s = socket.socket()
s.bind(('127.0.0.1', 0))
s.listen(1)
def serve():
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    server = AsyncIOProfilingServer(P(), interval=.02)
    loop.run_until_complete(asyncio.start_server(server, sock=s))
    loop.run_forever()
t = threading.Thread(target=serve)
t.daemon = True
t.start()
c = socket.create_connection(s.getsockname())
import time
time.sleep(1)
c.settimeout(20)
res = [recv_msg(c)[1] for _ in range(30)][2:]
res = [x[0] for x in res]
assert res == list(range(res[0], res[0] + len(res))), res
import os
os._exit(0)
'''),
dict(id='c18-stop-at-once', property='C18',
     edits=[(R, """        self.clients.remove(client)
        self._log_disconnected(client)
        self._close(client)
""", """        self.clients.remove(client)
        self._log_disconnected(client)
        self._close(client)
        if not self.clients and self.profiler.is_running():
            # nobody will get the result.
            self.profiler.stop()
""")],
     needs='a client that connects in the cycle in which the last one left', breaks='The program is not profiled for it until the next cycle.',
     demo=STUB + '''
s, a, b = Server(P()), C(), C()
s.connected(a)
s.disconnected(a)
s.connected(b)
assert s.profiler.is_running()
'''),
dict(id='c18-gevent-once', property='C18',
     edits=[('profiling/remote/gevent.py', "        self.profiling_greenlet = gevent.spawn(self.profile_periodically)\n",
             "        if self.profiling_greenlet is None:\n            self.profiling_greenlet = gevent.spawn(self.profile_periodically)\n")],
     needs='a client that connects after all others left', breaks='The gevent server does not profile for it.',
     demo='''
import gevent, socket
from profiling.profiler import Profiler
from profiling.remote.gevent import GeventProfilingServer
class P(Profiler):
    started = 0
    def run(self):
        self.started += 1
        yield
import gevent.socket
l = gevent.socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(1)
p = P()
s = GeventProfilingServer(l, p, interval=.01)
s.start()
for n in range(2):
    c = gevent.socket.create_connection(l.getsockname())
    gevent.sleep(.3)
    assert p.is_running(), n
    c.close()
    gevent.sleep(.3)
    assert not p.is_running(), n
'''),
dict(id='c19-close-first', property='C19',
     edits=[(R, """        self._log_disconnected(client)
        self._close(client)
""", """        self._close(client)
        self._log_disconnected(client)
""")],
     needs='the select server', breaks='The address of a closed socket is asked for: the first client that leaves ends the server.',
     demo='''
import socket, threading, time
from profiling.profiler import Profiler
from profiling.remote.select import SelectProfilingServer
class P(Profiler):
    def run(self):
        yield
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(1)
s = SelectProfilingServer(l, P(), interval=.01)
t = threading.Thread(target=s.serve_forever)
t.daemon = True
t.start()
for n in range(2):
    c = socket.create_connection(l.getsockname())
    c.settimeout(10)
    assert c.recv(1)
    c.close()
    time.sleep(.3)
assert t.is_alive()
import os
os._exit(0)
'''),
dict(id='c19-peername', property='C19',
     edits=[('profiling/remote/select.py', """            if exc.errno == ENOTCONN:
                return None
            else:
                raise
""", """            if exc.errno != ENOTCONN or sock in self.clients:
                raise
            return None
""")],
     needs='a client that resets its connection before the server takes it', breaks='The server ends.',
     demo='''
import os, socket, struct, threading, time
from profiling.profiler import Profiler
from profiling.remote.select import SelectProfilingServer
class P(Profiler):
    def run(self):
        yield
l = socket.socket()
l.bind(('127.0.0.1', 0))
l.listen(1)
c = socket.create_connection(l.getsockname())
c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
c.close()
s = SelectProfilingServer(l, P(), interval=.01)
t = threading.Thread(target=s.serve_forever)
t.daemon = True
t.start()
time.sleep(.5)
assert t.is_alive()
os._exit(0)
'''),
dict(id='c21-late-clear', property='C21',
     edits=[('profiling/remote/background.py', "        self.event.clear()\n", ""),
            ('profiling/remote/background.py', "        os.kill(os.getpid(), self.signum)\n", "        os.kill(os.getpid(), self.signum)\n        self.event.clear()\n")],
     needs='a main thread that handles the signal before the requesting thread goes on', breaks='The requesting thread waits forever.',
     demo='''
import os, sys, threading, time
from profiling.profiler import Profiler
from profiling.remote.background import BackgroundProfiler
class P(Profiler):
    def run(self):
        yield
real = os.kill
def kill(pid, sig):
    real(pid, sig)
    time.sleep(.2)
os.kill = kill
b = BackgroundProfiler(P())
b.prepare()
t = threading.Thread(target=b.start)
t.daemon = True
t.start()
end = time.time() + 5
while t.is_alive() and time.time() < end:
    time.sleep(.01)
alive = t.is_alive()
sys.stdout.flush()
os._exit(alive)
'''),
dict(id='c21-patience', property='C21',
     edits=[('profiling/remote/background.py', "        self.event.wait()\n", "        self.event.wait(5)\n")],
     needs='a main thread that is busy in one call for more than five seconds', breaks='The request returns before the profiler was started.',
     demo='''
import os, threading, time
from profiling.profiler import Profiler
from profiling.remote.background import BackgroundProfiler
real = threading.Event.wait
threading.Event.wait = lambda self, timeout=None: real(self, timeout and timeout / 100.)
class P(Profiler):
    def run(self):
        time.sleep(.5)
        acted.append(1)
        yield
acted = []
p = P()
b = BackgroundProfiler(p)
b.prepare()
seen = []
def request():
    b.start()
    seen.append(len(acted))
t = threading.Thread(target=request)
t.daemon = True
t.start()
while not seen:
    time.sleep(.01)
assert seen == [1], seen
'''),
dict(id='c20-slow-reset', property='C20',
     edits=[('profiling/remote/client.py', "delay = self.failover_interval if errno == ECONNREFUSED else 0", "delay = self.failover_interval if errno else 0")],
     needs='a connection that is reset (RST) rather than closed', breaks='The client waits before it reconnects after the loss of an established connection.',
     demo=CLIENT + '''
lis = socket.socket()
lis.bind(('127.0.0.1', 0))
lis.listen(5)
loop, viewer = Loop(), Viewer()
c = FailoverProfilingClient(viewer, loop, lis.getsockname())
c.start()
loop.fire()
s, _ = lis.accept()
s.sendall(pack_msg(WELCOME, None))
import time
time.sleep(.1)
loop.handle()
assert viewer.active
s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
s.close()
time.sleep(.1)
loop.handle()
assert not viewer.active
assert loop.fire() == 0
'''),
dict(id='c20-once-active', property='C20',
     edits=[('profiling/remote/client.py', "    client.viewer.activate()\n", "    if not client.welcomed:\n        client.welcomed = True\n        client.viewer.activate()\n"),
            ('profiling/remote/client.py', "    def __init__(self, viewer, event_loop, sock,\n", "    welcomed = False\n\n    def __init__(self, viewer, event_loop, sock,\n")],
     needs='a reconnection', breaks='The viewer stays inactive after a reconnection although results arrive.',
     demo=CLIENT + '''
d = tempfile.mkdtemp()
try:
    addr = os.path.join(d, 's')
    lis = socket.socket(socket.AF_UNIX)
    lis.bind(addr)
    lis.listen(5)
    loop, viewer = Loop(), Viewer()
    c = FailoverProfilingClient(viewer, loop, addr, socket.AF_UNIX)
    c.start()
    for n in range(3):
        loop.fire()
        s, _ = lis.accept()
        s.sendall(pack_msg(WELCOME, None))
        loop.handle()
        assert viewer.active, n
        s.close()
        loop.handle()
        assert not viewer.active
finally:
    shutil.rmtree(d)
'''),
dict(id='c20-leak', property='C20',
     edits=[('profiling/remote/client.py', '''    def disconnect(self, errno):
        self.sock.close()
''', '''    def disconnect(self, errno):
        if errno != ECONNREFUSED:
            self.sock.close()
''')],
     needs='a TCP port where nobody listens, refused after the connection was begun', breaks='A refused socket is not closed; every attempt leaves one.',
     demo=CLIENT + '''
import time
lis = socket.socket()
lis.bind(('127.0.0.1', 0))
addr = lis.getsockname()
lis.close()
loop = Loop()
c = FailoverProfilingClient(Viewer(), loop, addr)
c.start()
for n in range(3):
    loop.fire()
    s = c.sock
    time.sleep(.1)
    if loop.files:
        loop.handle()
    assert s.fileno() == -1, n
'''),
]
