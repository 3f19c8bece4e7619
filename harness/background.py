"""Starts and stops profilers from background threads while the main thread is
busy with something."""
import os, signal, sys, threading, time
try:
    import _thread
except ImportError:
    import thread as _thread

# A wait that may time out, does.
_Event = threading.Event


class HastyEvent(_Event if isinstance(_Event, type) else object):
    def wait(self, timeout=None):
        return _Event.wait(self, timeout if timeout is None else timeout * .005)


threading.Event = HastyEvent

from hlib import main, Injected  # noqa

MAIN = _thread.get_ident()
real_kill = os.kill
PAUSE = [0., 0.]    # before the inner profiler acts, after a signal was sent
HUNG = []
HANG = 20           # s


def who():
    return 'main' if _thread.get_ident() == MAIN else 'other'


def traced_work():
    pass


class Requester(object):
    def __init__(self, name):
        self.req, self.res = _thread.allocate_lock(), _thread.allocate_lock()
        self.req.acquire()
        self.res.acquire()
        th = threading.Thread(target=self.loop, name=name)
        th.daemon = True
        th.start()

    def loop(self):
        while True:
            self.req.acquire()
            task = self.task
            if task is None:
                return
            self.outcome = attempt(task)
            self.res.release()


def attempt(task):
    try:
        task()
    except Injected:
        return 'Fault'
    except Exception as e:
        return type(e).__name__
    return ''


def run_program(item):
    from profiling.profiler import Profiler
    from profiling.remote.background import BackgroundProfiler
    from profiling.tracing import TracingProfiler
    from profiling.tracing.timers import Timer
    state = dict(fail=False, did=[], threads=[])

    def act(what):
        time.sleep(PAUSE[0])
        if what == 'stop':
            state['did'].append(what)
            state['threads'].append(who())
        if state['fail']:
            state['fail'] = False
            if what == 'start':
                state['did'].append(what)
                state['threads'].append(who())
            raise Injected(what)
        if what == 'start':
            state['did'].append(what)
            state['threads'].append(who())

    class Inner(Profiler):
        def run(self):
            act('start')
            yield
            act('stop')

    class FaultyTimer(Timer):
        def run(self, profiler):
            act('start')
            yield
            act('stop')

    if item['kind'] == 'plain':
        inner = Inner()
    else:
        inner = TracingProfiler(sys._getframe(), timer=FaultyTimer())
    signum = item['signum'] and getattr(signal, item['signum'])
    outer = BackgroundProfiler(inner, signum) if signum else BackgroundProfiler(inner)
    outer.prepare()

    def kill(pid, sig):
        n = len(state['did'])
        real_kill(pid, sig)
        if who() == 'main':
            return
        # the main thread may go far before this thread goes on.
        t = time.time()
        while PAUSE[1] and len(state['did']) == n and time.time() - t < PAUSE[1]:
            time.sleep(.001)
        if PAUSE[1]:
            time.sleep(.003)
    os.kill = kill
    requesters = dict(one=Requester('one'), two=Requester('two'))
    trace = []
    lock = threading.Lock()
    lock.acquire()

    def busy(until, how):
        """The main program; returns what disturbed it."""
        t = time.time()
        try:
            while not until():
                if time.time() - t > HANG:
                    return 'hang'
                if how == 'sleep':
                    time.sleep(.05)
                elif how == 'lock':
                    lock.acquire(True, .05)
                elif how == 'compute':
                    sum(range(3000))
                elif how == 'raise':
                    try:
                        {}[1]
                    except KeyError:
                        time.sleep(.002)
                    finally:
                        time.sleep(.002)
                else:
                    sorted(range(50000), key=lambda x: -x)
        except BaseException as e:
            return type(e).__name__
        return ''

    for i, op in enumerate(item['ops']):
        k = op[0]
        ev = dict(op=k, disturbed='')
        trace.append(ev)
        PAUSE[:] = item['pauses'][i % len(item['pauses'])]
        how = item['main'][i % len(item['main'])]
        if k == 'break':
            state['fail'] = True
        elif k == 'work':
            # does the main program's work get profiled?
            if item['kind'] == 'tracing':
                traced_work()
                ev['profiled'] = sys.getprofile() is not None
            else:
                ev['profiled'] = inner.is_running()
        else:
            del state['did'][:], state['threads'][:]
            task = getattr(outer, k)
            if op[1] == 'main':
                err = attempt(task)
                finish(ev, err, state, inner, outer)
            else:
                r = requesters[op[1]]
                done = []

                def request():
                    err = attempt(task)
                    # at once, in the requesting thread
                    finish(ev, err, state, inner, outer)
                    done.append(1)
                r.task = request
                r.req.release()
                ev['disturbed'] = busy(lambda: done, how)
                again = ev['disturbed']
                while not done and again != 'hang':
                    again = busy(lambda: done, how)
                    ev['disturbed'] = ev['disturbed'] or again
                if again == 'hang':
                    HUNG.append(1)
                    ev.update(err='', did=[], threads=[], inner=False, outer=False)
                    return trace
                r.res.acquire()
    if inner.is_running():
        attempt(outer.stop)
        if inner.is_running():
            attempt(inner.stop)
    sys.setprofile(None)
    threading.setprofile(None)
    for r in requesters.values():
        r.task = None
        r.req.release()
    return trace


def finish(ev, err, state, inner, outer):
    ev.update(err=err, did=state['did'][:], threads=state['threads'][:], inner=inner.is_running(), outer=outer.is_running())


def run(payload):
    res = []
    for item in payload:
        res.append(run_program(item) if len(HUNG) < 2 else [])
    return res


if __name__ == '__main__':
    main(run)
