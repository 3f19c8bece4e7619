"""Runs profiling clients and their viewers against real sockets, behind an
event loop whose time the driver controls."""
import errno, os, random, select, socket, struct
from hlib import main
from screen import Screen, time_bounds

WELCOME = -2
real_connect_ex = socket.socket.connect_ex
NET = ['up']
IMMEDIATE = [errno.ENETUNREACH, errno.EHOSTUNREACH, errno.EAGAIN, errno.EADDRNOTAVAIL, errno.ETIMEDOUT, errno.ENOBUFS, errno.EPERM]
RNG = random.Random(0)


def connect_ex(self, addr):
    if NET[0] == 'failing':
        return RNG.choice(IMMEDIATE)
    return real_connect_ex(self, addr)


def connect(self, addr):
    if NET[0] == 'failing':
        e = RNG.choice(IMMEDIATE)
        raise socket.error(e, errno.errorcode[e])
    return real_connect(self, addr)


real_connect = socket.socket.connect
socket.socket.connect_ex = connect_ex
socket.socket.connect = connect


class Loop(object):
    """As urwid's event loops, but the driver tells when time passes."""
    def __init__(self):
        self.alarms, self.files, self.n = [], {}, 0

    def alarm(self, seconds, callback):
        self.n += 1
        self.alarms.append((seconds, self.n, callback))
        return self.alarms[-1]

    def remove_alarm(self, handle):
        if handle in self.alarms:
            self.alarms.remove(handle)
            return True
        return False

    def watch_file(self, fd, callback):
        self.files[fd] = callback
        return fd

    def remove_watch_file(self, handle):
        return self.files.pop(handle, None) is not None

    def fire(self):
        self.alarms.sort(key=lambda a: a[:2])
        self.alarms.pop(0)[2]()

    def settle(self):
        for _ in range(100):
            if not self.files:
                return
            try:
                ready = select.select(list(self.files), (), (), .01)[0]
            except (ValueError, OSError) as e:
                if getattr(e, 'errno', 0) == errno.EINTR:
                    continue
                raise
            if not ready:
                return
            for fd in ready:
                if fd in self.files:
                    self.files[fd]()


def sockets():
    n = set()
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd).startswith('socket:'):
                n.add(int(fd))
        except OSError:
            pass
    return n


class World(object):
    def __init__(self, item, path):
        from profiling.__about__ import __version__
        from profiling.remote.client import FailoverProfilingClient, ProfilingClient
        from profiling.viewer import StatisticsViewer
        self.item, self.path, self.version = item, path, __version__
        self.rng = random.Random(item['seed'])
        self.loop, self.viewer = Loop(), StatisticsViewer()
        self.listener = self.conn = None
        _, self.family, net = item['ops'][0]
        self.own = sockets()
        self.title = 'title-%d' % item['seed']
        self.addr = path
        if self.family == 'tcp':
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(('127.0.0.1', 0))
            self.addr = s.getsockname()
            s.close()
        self.net = None
        if self.family == 'given':
            self.conn, sock = socket.socketpair()
            self.own.add(self.conn.fileno())
            self.client = ProfilingClient(self.viewer, self.loop, sock, self.title)
        else:
            self.become(net)
            self.client = FailoverProfilingClient(
                self.viewer, self.loop, self.addr, socket.AF_UNIX if self.family == 'unix' else socket.AF_INET, title=self.title)

    def close(self, s):
        if s is not None:
            self.own.discard(s.fileno())
            s.close()

    def become(self, net):
        if self.family == 'given':
            return
        NET[0] = net
        if net == self.net:
            return
        self.net = net
        self.close(self.listener)
        self.listener = None
        if self.family == 'unix' and net != 'failing':
            if os.path.exists(self.path):
                os.unlink(self.path)
            if net == 'refusing':
                s = socket.socket(socket.AF_UNIX)
                s.bind(self.path)
                s.close()
        if net == 'up':
            s = socket.socket(socket.AF_UNIX if self.family == 'unix' else socket.AF_INET)
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind(self.addr)
            s.listen(4)
            s.settimeout(5)
            self.listener = s
            self.own.add(s.fileno())

    def accept(self):
        self.close(self.conn)
        self.conn = None
        try:
            self.conn = self.listener.accept()[0]
        except socket.timeout:
            return False
        self.own.add(self.conn.fileno())
        return True

    def message(self, m):
        from profiling.remote import pack_msg, PROFILER, RESULT, WELCOME as W
        from profiling.sampling import SamplingProfiler
        from profiling.stats import FrozenStatistics
        from profiling.tracing import TracingProfiler
        if m == WELCOME:
            return pack_msg(W, (2, self.version), pickle_protocol=0)
        if m < 0:
            return pack_msg(PROFILER, {-11: TracingProfiler, -12: SamplingProfiler}[m], pickle_protocol=self.item['proto'])
        child = FrozenStatistics('result%d' % m, 'file', 1, 'mod', 1, 1., [])
        return pack_msg(RESULT, (FrozenStatistics(None, None, None, None, 0, 0., [child]), float(m), float(m)), pickle_protocol=self.item['proto'])

    def snapshot(self):
        s = Screen(self.viewer.widget)
        return dict(timers=[a[0] for a in self.loop.alarms], watched=len(self.loop.files), sockets=len(sockets() - self.own),
                    state=s.state, head=s.head, shown=time_bounds(s.wall) if s.wall else [0, 0], title=(s.title or '').startswith(self.title),
                    row=int(s.rows[0]['name'][6:]) if s.rows and s.rows[0]['name'].startswith('result') else 0)


def run_scenario(item, path):
    w = World(item, path)
    trace = []
    for op in [['init']] + item['ops'][1:]:
        ev = dict(op=op[0], crash='')
        try:
            if op[0] == 'init':
                ev.update(family=w.family, net=item['ops'][0][2])
                w.client.start()
            elif op[0] == 'fire':
                if not w.loop.alarms:
                    ev['crash'] = 'there is no attempt to come'
                else:
                    w.loop.fire()
            elif op[0] == 'settle':
                w.loop.settle()
            elif op[0] == 'become':
                ev['net'] = op[1]
                w.become(op[1])
            elif op[0] == 'accept':
                ev['accepted'] = w.accept()
            elif op[0] == 'send':
                ev['m'] = op[1]
                w.conn.sendall(w.message(op[1]))
            elif op[0] == 'lose':
                if op[1] == 'reset':
                    # a reset discards what was not received yet.
                    w.loop.settle()
                    w.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    trace.append(dict(op='settle', crash='', **w.snapshot()))
                elif op[1] == 'cut':
                    m = w.message(99)
                    w.conn.sendall(m[:w.rng.randrange(1, len(m))])
                w.close(w.conn)
                w.conn = None
        except Exception as e:
            ev['crash'] = '%s: %s' % (type(e).__name__, e)
        ev.update(w.snapshot())
        trace.append(ev)
        if ev['crash']:
            break
    w.close(w.conn)
    w.close(w.listener)
    for fd in sockets() - w.own:
        os.close(fd)
    NET[0] = 'up'
    return trace


def run(payload):
    d = os.environ['VERIF_SCRATCH']
    return [run_scenario(x, os.path.join(d, 's%d' % i)) for i, x in enumerate(payload)]


if __name__ == '__main__':
    main(run)
