"""Drives the event-driven sampler with real threads and events.  The threads'
CPU clocks are under control: an event is a call made after the clock went on."""
import sys, threading, time
try:
    import _thread
except ImportError:
    import thread as _thread

real_gettime = time.clock_gettime
CLK = {}
SCALE = [1.]  # seconds of a unit
FRESH = [0]   # CPU time of a thread that did not do anything yet


def fake_gettime(which):
    if which == time.CLOCK_THREAD_CPUTIME_ID:
        c = CLK.get(_thread.get_ident())
        return (c[0] if c else FRESH[0]) * SCALE[0]
    return real_gettime(which)


time.clock_gettime = fake_gettime

from hlib import main  # noqa


class Recorder(object):
    """Stands for the profiler."""
    def __init__(self):
        self.samples = []

    def sample(self, frame):
        self.samples.append((_thread.get_ident(), frame.f_code.co_name))


def leaf():
    pass


def deep(n=3):
    if n:
        deep(n - 1)


class Worker(object):
    """A thread that performs one operation at a time."""
    def __init__(self):
        self.go, self.done = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.done.acquire()
        self.ops = []
        self.clk = [0]
        self.ident = None

    def start(self):
        self.th = threading.Thread(target=self.run)
        self.th.daemon = True
        self.th.start()
        self.done.acquire()

    def run(self):
        self.ident = _thread.get_ident()
        CLK[self.ident] = self.clk
        go, done, ops, clk = self.go, self.done, self.ops, self.clk
        while True:
            done.release()
            go.acquire()
            op = ops[0]
            if op is None:
                return
            perform(op, clk)

    def do(self, op):
        self.ops[:] = [op]
        self.go.release()
        if op is None:
            self.th.join()
        else:
            self.done.acquire()


def perform(op, clk):
    if op[0] == 'event':
        clk[0] += op[2]
        if op[3] == 'py':
            leaf()
        elif op[3] == 'c':
            len(op)
        else:
            deep()
    else:
        d, n = op[2], op[3]
        i = 0
        while i < n:
            clk[0] += d
            leaf()
            i += 1


def run_scenario(sc):
    from profiling.sampling.samplers import TracingSampler
    SCALE[0] = 2. ** sc['scale']
    sampler = TracingSampler(sc['interval'] * SCALE[0])
    rec = Recorder()
    CLK.clear()
    me = _thread.get_ident()
    clk = CLK[me] = [0]
    workers, trace, used, reused = {}, [], set(), 0
    try:
        for op in sc['ops']:
            ev = dict(op=op[0])
            del rec.samples[:]
            who = me
            if op[0] == 'start':
                sampler.start(rec)
            elif op[0] == 'stop':
                sampler.stop()
            elif op[0] == 'spawn':
                ev['t'], ev['s'] = op[1], op[2]
                FRESH[0] = op[2]
                w = workers[op[1]] = Worker()
                w.clk[0] = op[2]
                w.start()
                FRESH[0] = 0
                who = w.ident
                reused += who in used
                used.add(who)
            elif op[0] == 'end':
                ev['t'] = op[1]
                w = workers.pop(op[1])
                who = w.ident
                w.do(None)
                CLK.pop(who, None)
            else:
                ev['t'], ev['d'] = op[1], op[2]
                if op[0] == 'burst':
                    ev['n'] = op[3]
                if op[1] == 'M':
                    perform(op, clk)
                else:
                    who = workers[op[1]].ident
                    workers[op[1]].do(op)
            got = list(rec.samples)
            ev['samples'] = sum(t == who for t, _ in got)
            ev['others'] = len(got) - ev['samples']
            trace.append(ev)
    finally:
        sys.setprofile(None)
        threading.setprofile(None)
        for w in workers.values():
            w.do(None)
    return dict(trace=trace, reused=reused)


def run(payload):
    return [run_scenario(sc) for sc in payload]


if __name__ == '__main__':
    main(run)
