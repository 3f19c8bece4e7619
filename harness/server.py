"""Drives the base class of the profiling servers: connections, disconnections,
failing sends and the profiling loop in the schedule the specification chose."""
import errno, random, socket
from greenlet import getcurrent, greenlet
from hlib import main
from serverstub import CountingProfiler, Reader, Wrapping

ERRNOS = [errno.EPIPE, errno.ECONNRESET, errno.EBADF, errno.EAGAIN, errno.ETIMEDOUT, errno.ENOTCONN, None]
TRANSIENT = (errno.EAGAIN, None)


class Client(object):
    def __init__(self, n, reader, addr):
        self.n, self.reader, self.addr = n, reader, addr
        self.plan, self.closed = 0, False


def run_scenario(item):
    from profiling.__about__ import __version__
    from profiling.remote import ProfilingServer
    trace, blocked, waiting, running = [], [], [], [0]
    rng = random.Random(item['seed'])

    def ev(op, **kw):
        trace.append(dict(op=op, **kw))

    def pause(where):
        where.append(getcurrent())
        return hub.switch()

    def task(f, *args):
        def body():
            try:
                f(*args)
            except Exception as e:
                ev('crash', what='%s: %s' % (type(e).__name__, e))
        g = greenlet(body, parent=hub)
        g.switch()

    def fail(c):
        e = c.plan
        if c.closed:
            e = errno.EBADF
        elif e in TRANSIENT:
            c.plan = 0
        ev('fail', c=c.n)
        if e is None:
            raise socket.timeout('timed out')
        raise socket.error(e, errno.errorcode[e])

    class Server(ProfilingServer):
        def _send(self, c, data):
            if item['preempt'] and c.n % 3:
                pause(blocked)
            half = rng.randrange(len(data) + 1)
            if c.closed:
                fail(c)
            if c.plan != 0:
                read(c, data[:half])
                fail(c)
            if item['preempt'] and c.n % 2:
                read(c, data[:half])
                pause(blocked)
                if c.closed or c.plan != 0:
                    fail(c)
                data = data[half:]
            read(c, data)

        def _close(self, c):
            c.closed = True
            ev('drop', c=c.n)

        def _addr(self, c):
            return c.addr

        def _start_watching(self, c):
            pass

        def _start_profiling(self):
            if item['nested']:
                self.periodically()
            else:
                task(self.periodically)

        def periodically(self):
            for _ in self.profiling():
                command = pause(waiting)
                while command is not None:
                    command()
                    if item['short']:
                        break
                    command = pause(waiting)

    def read(c, data):
        for m in c.reader.feed(data):
            ev('msg', c=c.n, m=m)

    def do(f, *args):
        """Does it, in the waiting loop if it is the one that waits for clients."""
        def run():
            try:
                f(*args)
            except Exception as e:
                ev('crash', what='%s: %s' % (type(e).__name__, e))
        if item['nested'] and waiting:
            waiting.pop().switch(run)
        else:
            task(f, *args)

    hub = getcurrent()
    profiler = stub = CountingProfiler(ev, item['filler'])
    for _ in range(item['wraps']):
        profiler = Wrapping(profiler)
    logs = []
    kw = {} if item['proto'] is None else dict(pickle_protocol=item['proto'])
    server = Server(profiler, interval=1, log=logs.append, **kw)
    import profiling.remote
    greeting = (profiling.remote.PICKLE_PROTOCOL if item['proto'] is None else item['proto'], __version__)
    clients = {}
    for op in item['ops']:
        if op[0] == 'connect':
            c = clients[op[1]] = Client(op[1], Reader(CountingProfiler, greeting), rng.choice([None, ('host', op[1]), '', ('::1', 7, 0, 0)]))
            ev('conn', c=c.n)
            do(server.connected, c)
        elif op[0] == 'break':
            c = clients[op[1]]
            if c.plan == 0:
                c.plan = ERRNOS[op[2] - 1]
                ev('break', c=c.n)
        elif op[0] == 'leave':
            ev('leave', c=op[1])
            clients[op[1]].plan = errno.EPIPE
            do(server.disconnected, clients[op[1]])
        elif op[0] == 'hinder':
            stub.able = not stub.able
            ev('hinder', able=stub.able)
        elif op[0] == 'cycle':
            if not waiting:
                continue
            ev('cycle')
            waiting.pop(0).switch(None)
        elif op[0] == 'go':
            if not blocked:
                continue
            blocked.pop(op[1] % len(blocked)).switch()
        if len(waiting) > 1:
            ev('crash', what='two profiling loops')
        if not blocked:
            ev('rest', clients=sorted(c.n for c in server.clients), waits=bool(waiting), on=stub.is_running(),
               part=sorted(c.n for c in clients.values() if c.reader.there), logs=len(logs))
        if any(e['op'] == 'crash' for e in trace[-6:]):
            break
    return trace


def run(payload):
    return [run_scenario(x) for x in payload]


if __name__ == '__main__':
    main(run)
