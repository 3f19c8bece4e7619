"""Runs histories of start/stop/... on real profilers and records them."""
import os, signal, sys, threading
try:
    import _thread
except ImportError:
    import thread as _thread
from hlib import main, outcome, Injected, BodyError, tree_names


class FaultyMixin(object):
    fault = 'none'
    fired = False
    nset = nclean = 0

    def run(self, *args):
        f, self.fault = self.fault, 'none'
        self.nset += 1
        if f in ('sub', 'setup'):
            self.fired = True
            raise Injected(f)
        if f == 'noyield':
            self.fired = True
            return
        if f in ('subvalue', 'value'):
            self.fired = True
            yield 123
        else:
            yield
        f, self.fault = self.fault, 'none'
        self.nclean += 1
        if f in ('sub', 'cleanup'):
            self.fired = True
            raise Injected(f)
        if f == 'twice':
            self.fired = True
            yield


def make(kind, idx, base_frame):
    from profiling.profiler import Profiler, ProfilerWrapper
    from profiling.sampling import SamplingProfiler
    from profiling.sampling.samplers import ItimerSampler, Sampler, TracingSampler
    from profiling.tracing import TracingProfiler
    from profiling.tracing.timers import Timer
    from profiling.utils import Runnable

    class FaultyTimer(FaultyMixin, Timer):
        pass

    class FaultySampler(FaultyMixin, Sampler):
        pass

    class Plain(FaultyMixin, Runnable):
        pass

    class PlainProfiler(FaultyMixin, Profiler):
        pass

    class Wrapper(ProfilerWrapper):
        def run(self):
            with self.profiler:
                yield

    if kind == 'tracing':
        o = TracingProfiler(base_frame, timer=FaultyTimer())
        return o, o.timer
    if kind == 'itimer':
        o = SamplingProfiler(base_frame, sampler=ItimerSampler(7.5 + idx))
        return o, o.sampler
    if kind == 'tsampler':
        o = SamplingProfiler(base_frame, sampler=TracingSampler(0.0))
        return o, o.sampler
    if kind == 'custom':
        o = SamplingProfiler(base_frame, sampler=FaultySampler())
        return o, o.sampler
    if kind == 'plain':
        o = Plain()
        return o, o
    if kind == 'wrapper':
        inner = PlainProfiler()
        return Wrapper(inner), inner


def foreign_hook(frame, event, arg):
    pass


def custom_handler(signum, frame):
    pass


def make_work(k):
    ns = {'os': os, 'signal': signal}
    src = ('def work_%d(kill):\n'
           '    if kill:\n'
           '        os.kill(kill, signal.SIGPROF)\n'
           '    x = 0\n'
           '    for i in range(300):\n'
           '        x += i\n'
           '    return x\n') % k
    exec(compile(src, '<work%d>' % k, 'exec'), ns)
    return ns['work_%d' % k]


class Worker(object):
    def __init__(self):
        self.req, self.res = _thread.allocate_lock(), _thread.allocate_lock()
        self.req.acquire()
        self.res.acquire()
        self.task = None
        t = threading.Thread(target=self.loop)
        t.daemon = True
        t.start()

    def loop(self):
        while True:
            self.req.acquire()
            task = self.task
            if task is None:
                self.res.release()
                return
            try:
                task(0)
            except BaseException:
                pass
            self.res.release()

    def do(self, task):
        self.task = task
        self.req.release()
        self.res.acquire()


class Scenario(object):

    def __init__(self, kinds, base_frame):
        self.kinds = kinds
        self.objs, self.parts = {}, {}
        for i, name in enumerate(sorted(kinds)):
            self.objs[name], self.parts[name] = make(kinds[name], i, base_frame)
        self.worker = None
        self.work = 0

    def arm(self, o, f):
        """Arms fault f; returns a function telling whether it fired."""
        kind, part = self.kinds[o], self.parts[o]
        if f == 'none':
            return lambda exc: False
        if f == 'thr':
            state = []
            real = threading.setprofile

            def setprofile(func):
                if func is not None and not state:
                    state.append(1)
                    raise Injected('threading.setprofile')
                return real(func)
            threading.setprofile = setprofile
            self.unpatch = lambda: setattr(threading, 'setprofile', real)
            return lambda exc: bool(state)
        if kind == 'itimer':
            good, part.interval = part.interval, -1
            self.unpatch = lambda: setattr(part, 'interval', good)
            # getting an error from the timer system call is the fault
            return lambda exc: exc is not None and not isinstance(exc, (RuntimeError, TypeError))
        part.fault, part.fired = f, False

        def unpatch():
            part.fault = 'none'
        self.unpatch = unpatch
        return lambda exc: part.fired

    def call(self, o, f, func, *args):
        self.unpatch = lambda: None
        fired = self.arm(o, f)
        exc = None
        swallowed = None
        try:
            swallowed = func(*args)
        except BaseException as e:
            exc = e
        self.unpatch()
        out = outcome(exc)
        hit = fired(exc)
        if self.kinds[o] == 'itimer' and hit:
            out = 'Fault'
        return out, hit, swallowed

    def step(self, op):
        name, ev = op[0], {'op': op[0], 'out': 'ok', 'f': 'none', 'fired': False}
        if name in ('start', 'stop', 'enter'):
            o, f = op[1], op[2]
            obj = self.objs[o]
            func = {'start': obj.start, 'stop': obj.stop, 'enter': obj.__enter__}[name]
            out, hit, __ = self.call(o, f, func)
            ev.update(o=o, f=f, out=out, fired=hit)
        elif name == 'exit':
            o, f, raises = op[1], op[2], op[3]
            obj = self.objs[o]
            info = (None, None, None)
            if raises:
                try:
                    raise BodyError()
                except BodyError:
                    info = sys.exc_info()
            out, hit, swallowed = self.call(o, f, obj.__exit__, *info)
            if raises and out == 'ok' and not swallowed:
                out = 'Body'
            ev.update(o=o, f=f, out=out, fired=hit, exc=raises)
        elif name == 'foreign':
            sys.setprofile(foreign_hook if op[1] else None)
            ev.update(on=op[1])
        elif name == 'setsig':
            signal.signal(signal.SIGPROF, {'DFL': signal.SIG_DFL, 'IGN': signal.SIG_IGN,
                                           'custom': custom_handler}[op[1]])
            ev.update(v=op[1])
        elif name == 'setitv':
            t = {'off': 0, 'user': 1000}[op[1]]
            signal.setitimer(signal.ITIMER_PROF, t, t)
            ev.update(v=op[1])
        elif name == 'work':
            self.work += 1
            w = make_work(self.work)
            kill = signal.getsignal(signal.SIGPROF) != signal.SIG_DFL
            w(os.getpid() if kill else 0)
        elif name == 'spawn':
            self.worker = Worker()
        elif name == 'poke':
            self.work += 1
            self.worker.do(make_work(self.work))
        ev['obs'] = self.observe()
        return ev

    def observe(self):
        hook = sys.getprofile()
        hook = 'none' if hook is None else 'foreign' if hook is foreign_hook else 'profiler'
        box = []

        def probe():
            box.append(sys.getprofile())
        t = threading.Thread(target=probe)
        t.start()
        t.join()
        fut = 'none' if box[0] is None else 'foreign' if box[0] is foreign_hook else 'profiler'
        sig = signal.getsignal(signal.SIGPROF)
        sig = ('DFL' if sig == signal.SIG_DFL else 'IGN' if sig == signal.SIG_IGN else
               'custom' if sig is custom_handler else 'profiler')
        itv = signal.getitimer(signal.ITIMER_PROF)
        if itv[0] == 0:
            owner = 'off'
        else:
            owner = 'user' if abs(itv[1] - 1000) < .01 else 'unknown'
            for i, name in enumerate(sorted(self.kinds)):
                if self.kinds[name] == 'itimer' and abs(itv[1] - (7.5 + i)) < .01:
                    owner = name
        seen, run, sub, nset, nclean = {}, {}, {}, {}, {}
        for o, obj in self.objs.items():
            kind, part = self.kinds[o], self.parts[o]
            run[o] = bool(obj.is_running())
            sub[o] = bool(part.is_running()) if kind != 'plain' else False
            nset[o] = part.nset if kind == 'plain' else 0
            nclean[o] = part.nclean if kind == 'plain' else 0
            if kind == 'plain':
                seen[o] = []
            else:
                names = tree_names(obj.stats)
                seen[o] = sorted(int(n[5:]) for n in names if n and n.startswith('work_'))
        return dict(hook=hook, fut=fut, sig=sig, itv=owner, run=run, sub=sub, seen=seen, nset=nset, nclean=nclean)

    def reset(self):
        sys.setprofile(None)
        threading.setprofile(None)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_IGN)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        if self.worker is not None:
            self.worker.do(None)


def run_scenario(sc):
    s = Scenario(sc['kinds'], sys._getframe())
    trace = [dict(op='config', kinds=sc['kinds'])]
    try:
        for op in sc['ops']:
            trace.append(s.step(op))
    finally:
        s.reset()
    return trace


def run(payload):
    return [run_scenario(sc) for sc in payload]


if __name__ == '__main__':
    main(run)
