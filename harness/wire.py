"""Sends messages over real sockets in portions and receives them."""
import os, pickle, random, socket, struct, threading, time
from hlib import main


class Payload(object):
    def __init__(self, n, size, rng):
        self.n, self.filler = n, os.urandom(max(0, size)) if rng.random() < .5 else b'x' * size

    def __eq__(self, other):
        return type(other) is Payload and (self.n, self.filler) == (other.n, other.filler)


def payload(n, size, rng):
    from profiling.stats import FrozenStatistics
    from profiling.tracing import TracingProfiler
    kind = rng.randrange(4)
    if kind == 0:
        return Payload(n, size, rng)
    if kind == 1:
        return [n, 'text' * (size // 4), None]
    if kind == 2:
        return (n, TracingProfiler, size)
    return (n, FrozenStatistics('f', 'file', n, 'mod', size, .5, []), 1., 2.)


def same(a, b):
    if isinstance(b, tuple) and len(b) == 4:
        try:
            return a[0] == b[0] and a[2:] == b[2:] and (a[1].name, a[1].lineno, a[1].own_hits) == (b[1].name, b[1].lineno, b[1].own_hits)
        except Exception:
            return False
    return a == b


def pair(kind):
    if kind == 'unix':
        return socket.socketpair()
    l = socket.socket()
    l.bind(('127.0.0.1', 0))
    l.listen(1)
    a = socket.create_connection(l.getsockname())
    b = l.accept()[0]
    l.close()
    a.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return a, b


def run_scenario(item):
    import profiling.remote.client, profiling.remote.gevent, profiling.remote.select  # noqa (as they are used together)
    from profiling.remote import pack_msg, recv_msg
    rng = random.Random(item['seed'])
    w, r = pair(item['sock'])
    r.setblocking(item['blocking'])
    trace, msgs, stream, queue = [], [], b'', []
    for op in item['ops']:
        if op[0] == 'send':
            method = rng.choice([0x10, 0x11, 0x12, 0, 255])
            m = payload(len(msgs) + 1, op[1], rng)
            data = pack_msg(method, m, pickle_protocol=rng.randrange(6)) if rng.random() < .8 else pack_msg(method, m)
            msgs.append((method, m))
            stream += data
            trace.append(dict(op='send', size=len(data)))
        else:
            queue.append(op)
    # the portions, in proportion to the real lengths
    want = sum(o[1] for o in queue if o[0] == 'deliver')
    total, at = len(stream), 0
    portions = []
    for o in queue:
        if o[0] != 'deliver':
            continue
        n = min(o[1], total - at) if o[1] < 1000 else min(int(o[1] * total // max(1, want)) or 1, total - at)
        if n > 0:
            portions.append(stream[at:at + n])
            at += n
    if not item['cut'] and at < total:
        portions.append(stream[at:])
        at = total
    for p in portions:
        trace.append(dict(op='deliver', n=len(p)))
    trace.append(dict(op='end'))
    delays = item['delays']

    def write():
        try:
            for i, p in enumerate(portions):
                w.sendall(p)
                d = delays[i % len(delays)]
                if d:
                    time.sleep(d / 1000.)
            if item['reset']:
                w.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            w.close()
        except socket.error:
            pass
    th = threading.Thread(target=write)
    th.daemon = True
    th.start()
    r_alive = True
    for _ in range(len(msgs) + 1):
        got = []

        def receive():
            try:
                method, m = recv_msg(r)
                n = [i + 1 for i, (a, b) in enumerate(msgs) if a == method and same(m, b)]
                want = len([e for e in trace if e['op'] == 'recv']) + 1
                got.append(want if want in n else n[0] if n else -1)
            except socket.error:
                got.append(0)
            except Exception as e:
                got.append(-2)
        t = threading.Thread(target=receive)
        t.daemon = True
        t.start()
        t.join(30)
        trace.append(dict(op='recv', got=got[0] if got else -3, reset=bool(item['reset'] or False)))
        if not got or got[0] <= 0:
            break
    th.join(1)
    r.close()
    return trace


def run(payload_):
    return [run_scenario(x) for x in payload_]


if __name__ == '__main__':
    main(run)
