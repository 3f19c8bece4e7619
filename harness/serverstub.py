"""What the server harnesses share: a profiler that counts its results and a
reader of what the server sends."""
import pickle, struct
from profiling.profiler import Profiler, ProfilerWrapper


class CountingProfiler(Profiler):
    """Its results are numbered."""
    def __init__(self, ev, filler=0):
        super(CountingProfiler, self).__init__()
        self.ev, self.filler = ev, filler
        self.n, self.able = 0, True

    def run(self):
        if not self.able:
            raise RuntimeError('Another profiler already registered')
        self.ev('start')
        yield
        self.ev('stop')

    def result(self):
        self.n += 1
        self.ev('produce', n=self.n)
        return self.n, b'x' * self.filler, 'end of %d' % self.n


class Wrapping(ProfilerWrapper):
    def run(self):
        self.profiler.start()
        yield
        self.profiler.stop()


WELCOME, KIND, GARBAGE = -2, -1, -9


class Reader(object):
    """Reads the stream of a client as the protocol says."""
    def __init__(self, kind, greeting):
        self.kind, self.greeting, self.lost = kind, greeting, False
        self.buf, self.parts, self.there, self.need = b'', [], 0, 5

    def feed(self, data):
        self.parts.append(data)
        self.there += len(data)
        res = []
        if self.there < self.need:
            return res
        self.buf, self.parts = b''.join([self.buf] + self.parts), []
        while not self.lost and len(self.buf) >= 5:
            method, size = struct.unpack('!BI', self.buf[:5])
            if method not in (0x10, 0x11, 0x12):
                self.lost = True
                res.append(GARBAGE)
                break
            self.need = 5 + size
            if len(self.buf) < 5 + size:
                break
            body, self.buf = self.buf[5:5 + size], self.buf[5 + size:]
            self.need = 5
            try:
                m = pickle.loads(body)
            except Exception:
                res.append(GARBAGE)
                self.lost = True
                break
            if method == 0x10:
                res.append(WELCOME if m == self.greeting else GARBAGE)
            elif method == 0x11:
                res.append(KIND if m is self.kind else GARBAGE)
            else:
                res.append(m[0] if type(m) is tuple and len(m) == 3 and m[2] == 'end of %d' % m[0] else GARBAGE)
        self.there = len(self.buf)
        return res
