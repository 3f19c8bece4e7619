"""Runs programs given as linear scripts under real profilers and records the
results.  The functions of the program take their next step from the script and
perform it with built-ins only, so that no other Python call happens in them."""
import os, signal, sys, threading, time
try:
    import _thread
except ImportError:
    import thread as _thread

# -- clocks: installed before profiling is imported --------------------------------


class Clocks(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.cpu = 0
        self.thr = {}
        self.deltas, self.pos = [0], 0
        self.inhook = None   # thread in the hook at an event of the program
        self.reads = 0
        self.armed = 0       # the reading at which a signal interrupts the hook
        self.signal = None   # what it does
        self.quiet = False

    def advance(self, d):
        self.cpu += d
        t = self.thr[_thread.get_ident()]
        t[0] += d

    def reading(self):
        """A reading of the profiler's timer; in the hook the time goes on
        from the second reading on."""
        if self.inhook == _thread.get_ident():
            if self.reads and not self.quiet:
                self.pos += 1
                self.advance(self.deltas[self.pos % len(self.deltas)])
            self.reads += 1
            if self.armed == self.reads:
                self.quiet = True   # no time passes in the rest of it
                self.armed = 0
                self.signal()


C = Clocks()
real_clock, real_time, real_gettime = getattr(time, 'clock', None), time.time, time.clock_gettime


def fake_clock():
    return C.cpu


def fake_gettime(which):
    if which == time.CLOCK_THREAD_CPUTIME_ID:
        C.reading()
        t = C.thr.get(_thread.get_ident())
        return t[0] if t else 0
    return real_gettime(which)


time.clock = fake_clock
time.clock_gettime = fake_gettime

from hlib import main  # noqa

FILE = '<program>'
SOURCE = '''
def {name}(_=None):
    {enter}
    while True:
        op = OPS[POS[0]]
        POS[0] += 1
        k = op[0]
        if k == 'raise':
            raise UNW(op[1])
        try:
            if k == 'call':
                FN[op[1]]()
            elif k == 'tick':
                CPU.cpu += op[1]
                CLK[CUR[0]][0] += op[1]
            elif k == 'callin':
                CPU.armed = op[2]
                FN[op[1]]()
            elif k == 'ret':
                return
            elif k == 'retin':
                CPU.armed = op[1]
                return
            elif k == 'bcall':
                list(map(FN[op[1]], ONE))
            elif k == 'gen':
                GENS[op[1]] = FN[op[2]]()
            elif k == 'resume':
                next(GENS[op[1]], None)
            elif k == 'yield':
                {yield_}
            elif k == 'builtin':
                len(sorted(ONE))
            elif k == 'switch':
                me = CUR[0]
                CUR[0] = op[1]
                LOCK[op[1]].release()
                LOCK[me].acquire()
                {exit}
            elif k == 'sample':
                if op[1] == 'signal':
                    kill(PID, SIGPROF)
                    len(ONE)
                else:
                    SAMPLE(getframe())
            elif k == 'end':
                POS[0] -= 1
                if CUR[0] != 'M':
                    me = CUR[0]
                    CUR[0] = 'M'
                    LOCK['M'].release()
                    LOCK[me].acquire()
                return
            else:
                # of the profiler and the threading module
                hook = getprofile()
                if k == 'result' or k == 'spawn' or k == 'join' or k == 'config':
                    if k == 'result':
                        setprofile(None)
                        DO(op, getframe())
                        setprofile(hook)
                    else:
                        DO(op, getframe())
                elif k == 'start':
                    DO(['config'] + op[1:], getframe())
                    P[0].start()
                    DO(['started'], None)
                elif k == 'stop':
                    P[0].stop()
        except UNW as e:
            if e.args[0] > 1:
                raise UNW(e.args[0] - 1)
'''


class UNW(Exception):
    pass


class Program(object):

    def __init__(self, sc):
        from profiling.tracing import TracingProfiler
        from profiling.tracing.timers import Timer, ThreadTimer
        from profiling.sampling import SamplingProfiler
        from profiling.sampling.samplers import Sampler, ItimerSampler
        self.sc = sc
        C.reset()
        C.deltas = sc['deltas']
        C.signal = self.restart
        self.restarts = set()
        self.results = []
        self.threads = {}
        if sc['kind'] == 'tracing':
            if sc['timer'] == 'thread':
                timer = ThreadTimer()
            else:
                class CpuTimer(Timer):
                    def __call__(self):
                        C.reading()
                        return C.cpu
                timer = CpuTimer()
            make = lambda: TracingProfiler(timer=timer)
        else:
            make = lambda: SamplingProfiler(sampler=ItimerSampler(10000.))
        self.make = make
        self.ns = dict(OPS=sc['ops'] + [['end']], POS=[0], CUR=['M'], UNW=UNW, FN={}, GENS={}, ONE=[0], LOCK={}, CLK={}, CPU=C,
                       kill=os.kill, PID=os.getpid(), SIGPROF=signal.SIGPROF, getframe=sys._getframe,
                       getprofile=sys.getprofile, setprofile=sys.setprofile, DO=self.do, P=[make()],
                       SAMPLE=self.sample, READY={})
        self.codes = {}
        for name in sc['fns'] + ['M', 'T']:
            src = SOURCE.format(name=name, yield_='yield' if name.startswith('g') else 'pass',
                                enter='me = CUR[1]; READY[me].release(); LOCK[me].acquire()\n    if OPS[POS[0] - 1][0] == "join": return' if name == 'T' else 'pass',
                                exit='if OPS[POS[0] - 1][0] == "join": return' if name == 'T' else 'pass')
            ns = self.ns
            exec(compile(src, FILE, 'exec'), ns)
            self.ns['FN'][name] = ns[name]
            self.codes[name] = ns[name].__code__
        self.mine = set(self.codes[n] for n in sc['fns'])
        self.mainlock()

    def mainlock(self):
        self.ns['LOCK']['M'] = _thread.allocate_lock()
        self.ns['LOCK']['M'].acquire()
        self.ns['CLK']['M'] = C.thr[_thread.get_ident()] = [0]

    def sample(self, frame):
        # called with the frame of the program as the signal handler would be
        self.ns['P'][0].sample(frame)

    mframe = None   # frame of the outermost function of the main thread

    def hook(self, real):
        mine = self.mine

        def hook(frame, event, arg):
            if frame.f_code in mine:
                C.reads = 0
                C.quiet = False
                C.inhook = _thread.get_ident()
                try:
                    real(frame, event, arg)
                finally:
                    C.inhook = None
                    C.armed = 0
            else:
                real(frame, event, arg)
        return hook

    def restart(self):
        """As the handler of a signal that interrupts the hook."""
        p = self.ns['P'][0]
        self.restarts.add(self.ns['POS'][0] - 1)
        hook, C.inhook = C.inhook, None
        p.stop()
        self.do(['config', -1, '', [], [], False], sys._getframe())
        p.start()
        self.do(['started'], None)
        C.inhook = hook

    def do(self, op, frame):
        k = op[0]
        if self.mframe is None and self.ns['CUR'][0] == 'M':
            f = frame
            while f is not None:
                if f.f_code.co_filename == FILE:
                    self.mframe = f
                f = f.f_back
        ns = self.ns
        if k == 'config':
            __, base, bcode, ign, ignact, fresh = op
            if fresh:
                ns['P'][0] = self.make()
            p = ns['P'][0]
            # frames of the active functions, outermost first
            frames = []
            while frame is not None:
                if frame.f_code.co_filename == FILE:
                    frames.insert(0, frame)
                frame = frame.f_back
            p.base_frame = frames[base - 1] if base > 0 else None if base == 0 else self.mframe
            p.base_code = self.codes[bcode] if bcode else None
            p.ignored_frames = tuple(frames[i - 1] for i in ignact)
            p.ignored_codes = set(self.codes[f] for f in ign) if len(ign) % 2 else tuple(self.codes[f] for f in ign)
        elif k == 'started':
            real = sys.getprofile()
            if real is not None:
                hook = self.hook(real)
                sys.setprofile(hook)
                threading.setprofile(hook)
        elif k == 'spawn':
            t = op[1]
            ns['LOCK'][t] = _thread.allocate_lock()
            ns['LOCK'][t].acquire()
            ns['READY'][t] = _thread.allocate_lock()
            ns['READY'][t].acquire()
            ns['CUR'][1:] = [t]
            clk = ns['CLK'][t] = [0]

            def target():
                C.thr[_thread.get_ident()] = clk
                ns['FN']['T']()
            th = self.threads[t] = threading.Thread(target=target)
            th.daemon = True
            th.start()
            ns['READY'][t].acquire()
        elif k == 'join':
            t = op[1]
            ns['LOCK'][t].release()
            self.threads.pop(t).join()
        elif k == 'result':
            self.results.append(self.snapshot())

    def snapshot(self):
        res = self.ns['P'][0].result()
        stats, cpu = res[0], res[1]
        nodes = {}
        todo = [(stats, ())]
        other = stats.own_hits
        while todo:
            s, path = todo.pop()
            for x in s:
                p = path + (x.name,) if x.filename == FILE else path or ('*',)
                if x.filename == FILE:
                    n = nodes.setdefault(p, [0, 0])
                    n[0] += x.own_hits
                    n[1] += x.deep_time
                else:
                    other += x.own_hits
                todo.append((x, p))
        return dict(nodes=[dict(path=list(p), calls=h, time=exact(t)) for p, (h, t) in sorted(nodes.items())],
                    cpu=exact(cpu), other=other, deep=stats.deep_hits)

    def run(self):
        signal.signal(signal.SIGPROF, signal.SIG_IGN)
        try:
            self.ns['FN']['M']()
        finally:
            sys.setprofile(None)
            threading.setprofile(None)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_IGN)
            self.ns['POS'][0] = len(self.ns['OPS']) - 1
            self.ns['CUR'][0] = 'M'
            for t, th in list(self.threads.items()):
                self.ns['LOCK'][t].release()
                th.join()
        it = iter(self.results)
        trace = [dict(op='program', kind=self.sc['kind'], timer=self.sc['timer'])]
        again = [dict(op='stop'), dict(op='start', base=-1, bcode='', ign=[], ignact=[])]
        for i, op in enumerate(self.sc['ops']):
            if op[0] in ('callin', 'retin'):
                ev = [dict(op='call', arg=op[1]) if op[0] == 'callin' else dict(op='ret')]
                r = again if i in self.restarts else []
                trace += ev + r if op[0] == 'callin' else r + ev
                continue
            ev = dict(op=op[0])
            if op[0] == 'result':
                ev.update(next(it))
            elif op[0] == 'start':
                ev.update(base=op[1], bcode=op[2], ign=op[3], ignact=op[4])
            elif op[0] == 'gen':
                ev.update(g=op[1], fn=op[2])
            elif len(op) > 1:
                ev['arg'] = op[1]
            trace.append(ev)
        return trace


def exact(x):
    return int(x) if x == int(x) else -1


def run(payload):
    return [Program(sc).run() for sc in payload]


if __name__ == '__main__':
    main(run)
