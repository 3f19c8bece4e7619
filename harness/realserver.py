"""Runs the profiling servers with real connections.  The clients do what the
behaviours of the specification say; what each of them received is reported."""
import errno, os, random, socket, struct, sys, threading, time
import gevent
import gevent.socket
from hlib import main
from serverstub import CountingProfiler, Reader, Wrapping

PATIENCE = 20.   # seconds until what has to happen is taken for not happening


class Client(object):
    def __init__(self, w, n, rng, hasty=False):
        self.w, self.n = w, n
        self.reader = Reader(CountingProfiler, w.greeting)
        self.msgs, self.end, self.left = [], 'open', False
        self.reading = threading.Event()
        self.reading.set()
        self.base = w.produced()
        self.sock = socket.socket(w.family)
        if rng.random() < .3 and w.stub.filler < 400000:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
        try:
            self.sock.connect(w.addr)
            self.sock.settimeout(.05)
            if hasty:
                # it resets at once.  A thread that reads would delay it.
                return
            self.th = threading.Thread(target=self.read)
            self.th.daemon = True
            self.th.start()
        except socket.error:
            self.end = 'refused'

    def read(self):
        while self.end == 'open' and not self.left:
            self.reading.wait()
            try:
                data = self.sock.recv(1 << 16)
            except socket.timeout:
                continue
            except (socket.error, ValueError):
                self.end = 'reset'
                break
            if not data:
                self.end = 'eof'
                break
            with self.w.mutex:
                self.msgs.extend(self.reader.feed(data))

    def leave(self, reset):
        self.left = True
        self.reading.set()
        try:
            if reset:
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            self.sock.close()
        except socket.error:
            pass

    def misbehave(self, how):
        """1, 5: resets, 2: sends something, 3: ends its direction, 4: does not
        read any more, 6: sends something and goes, 7: ends both directions."""
        try:
            if how == 5:
                self.reading.clear()
                time.sleep(.06)
            if how in (2, 6):
                self.sock.sendall(b'?' * random.choice([1, 1000, 50000]))
            if how == 3:
                self.sock.shutdown(socket.SHUT_WR)
            if how == 4:
                self.reading.clear()
            if how == 7:
                self.sock.shutdown(socket.SHUT_RDWR)
        except socket.error:
            pass
        if how in (1, 5, 6):
            self.leave(how != 6)


class World(object):
    def __init__(self, item, path):
        from profiling.__about__ import __version__
        import profiling.remote
        self.rng = random.Random(item['seed'])
        self.mutex = threading.Lock()
        self.events, self.logs, self.clients = [], [], {}
        self.crash = None
        self.greeting = (profiling.remote.PICKLE_PROTOCOL if item['proto'] is None else item['proto'], __version__)
        self.stub = profiler = CountingProfiler(lambda op, **kw: self.events.append(op), item['filler'])
        for _ in range(item['wraps']):
            profiler = Wrapping(profiler)
        kw = {} if item['proto'] is None else dict(pickle_protocol=item['proto'])
        kw.update(interval=item['interval'], log=self.logs.append)
        self.family = socket.AF_UNIX if item['sock'] == 'unix' else socket.AF_INET
        addr = path if item['sock'] == 'unix' else ('127.0.0.1', 0)
        ready = threading.Event()

        def select_():
            from profiling.remote.select import SelectProfilingServer
            class Listener(socket.socket):
                faults = item['faults']
                def accept(this):
                    if self.rng.random() < .3:
                        time.sleep(.01)
                    sock, a = socket.socket.accept(this)
                    if this.faults and self.rng.random() < .3:
                        sock.close()
                        raise socket.error(self.rng.choice([errno.ECONNABORTED, errno.EAGAIN, errno.EPROTO]), 'injected')
                    if this.faults and self.rng.random() < .5:
                        sock = Faulty(sock, self.rng)
                    return sock, a
            listener = Listener(self.family)
            listener.bind(addr)
            listener.listen(16)
            self.server = SelectProfilingServer(listener, profiler, **kw)
            return listener.getsockname(), self.server.serve_forever

        def gevent_():
            from profiling.remote.gevent import GeventProfilingServer
            listener = gevent.socket.socket(self.family)
            listener.bind(addr)
            listener.listen(16)
            self.server = GeventProfilingServer(listener, profiler, **kw)
            gevent.get_hub().handle_error = lambda context, t, v, tb: crashed(v)
            return listener.getsockname(), self.server.serve_forever

        def asyncio_():
            import asyncio
            from profiling.remote.asyncio import AsyncIOProfilingServer
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            loop.set_exception_handler(lambda loop, context: crashed(context.get('exception'))
                                       if not isinstance(context.get('exception'), socket.error) else None)
            self.server = AsyncIOProfilingServer(profiler, **kw)
            s = socket.socket(self.family)
            s.bind(addr)
            s.listen(16)
            start = asyncio.start_unix_server if item['sock'] == 'unix' else asyncio.start_server
            loop.run_until_complete(start(self.server, sock=s))
            return s.getsockname(), loop.run_forever

        def crashed(e):
            if e is not None and not isinstance(e, getattr(gevent, 'GreenletExit', ())):
                self.crash = '%s: %s' % (type(e).__name__, e)

        def serve():
            try:
                self.addr, serve_forever = dict(select=select_, gevent=gevent_, asyncio=asyncio_)[item['kind']]()
                self.server.send_timeout = 2.
                ready.set()
                serve_forever()
                self.crash = 'the server returned'
            except BaseException as e:
                crashed(e)
                ready.set()
        self.thread = threading.Thread(target=serve)
        self.thread.daemon = True
        self.thread.start()
        ready.wait(PATIENCE)

    def produced(self):
        return self.stub.n

    def wait(self, f, patience=PATIENCE):
        end = time.time() + patience
        while not f():
            if time.time() > end:
                return False
            time.sleep(.004)
        return True


class Faulty(object):
    """A connection that fails in its own way."""
    def __init__(self, sock, rng):
        self._sock = sock
        self._e = rng.choice([errno.ETIMEDOUT, errno.EHOSTUNREACH, errno.ENETDOWN, errno.ECONNRESET])

    def __getattr__(self, a):
        return getattr(self._sock, a)

    def recv(self, *args):
        data = self._sock.recv(*args)
        if not data:
            raise socket.error(self._e, 'injected')
        return data


def run_scenario(item, path):
    t0 = time.time()
    w = World(item, path)
    rng = w.rng
    cs = w.clients
    healthy = set()
    if not hasattr(w, 'addr'):
        return [dict(op='end', served=False, crash=w.crash or 'does not start', kept=0, on=False, events=[])]
    if w.crash is None:
        for op, then in zip(item['ops'], item['ops'][1:] + [None]):
            if op[0] == 'connect':
                cs[op[1]] = Client(w, op[1], rng, hasty=then in (['break', op[1], 1], ['break', op[1], 6]))
                healthy.add(op[1])
            elif op[0] == 'break':
                healthy.discard(op[1])
                cs[op[1]].misbehave(op[2])
            elif op[0] == 'leave':
                healthy.discard(op[1])
                cs[op[1]].leave(False)
            elif op[0] == 'cycle':
                if rng.random() < .5:
                    time.sleep(rng.choice([0, .001, .01, .03]))
                elif healthy and w.crash is None:
                    n = w.produced()
                    w.wait(lambda: w.produced() > n or w.crash or not any(cs[k].end == 'open' for k in healthy))
            if w.crash is not None:
                break
    # a client of good manners is served in the end, and so are those before it.
    alive = []
    for attempt in range(6 if item['faults'] else 1):
        last = Client(w, 99, rng)
        w.wait(lambda: w.crash or len(last.msgs) >= 4 or last.end != 'open')
        if len(last.msgs) >= 4:
            break
    served = len(last.msgs) >= 4
    n = w.produced()
    good = [c for k, c in cs.items() if k in healthy and c.end == 'open']
    if w.crash is None:
        w.wait(lambda: w.crash or all(c.end != 'open' or (c.msgs and c.msgs[-1] >= n) for c in good + [last]), PATIENCE if served else 1)
    trace = []
    for k, c in sorted(cs.items()) + [(99, last)]:
        with w.mutex:
            msgs = list(c.msgs)
        # a select server may see the injected failure of the connection
        excused = item['faults'] and c.end != 'open' and not msgs
        trace.append(dict(op='client', c=k, base=c.base, msgs=msgs, healthy=(k in healthy or k == 99) and not excused, end=c.end, upto=n, slow=item['kind'] == 'gevent' and item['filler'] > 5000))
    for c in list(cs.values()) + [last]:
        c.leave(rng.random() < .5)
    w.wait(lambda: w.crash or (not w.stub.is_running() and not w.server.clients), PATIENCE if w.crash is None else 0)
    time.sleep(item['interval'] * 2)
    trace.append(dict(op='end', served=served, crash=w.crash or '', t=round(1000 * (time.time() - t0)), kept=len(w.server.clients) if hasattr(w, 'server') else 0, on=w.stub.is_running(),
                      events=[dict(start=1, stop=2, produce=3)[e] for e in w.events][:4000]))
    return trace


def run(payload):
    d = os.environ['VERIF_SCRATCH']
    return [run_scenario(x, os.path.join(d, 's%d' % i)) for i, x in enumerate(payload)]


if __name__ == '__main__':
    main(run)
