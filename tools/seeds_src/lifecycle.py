SEEDS = [
dict(id='c01-stop-keeps-on-error', property='C01',
     edits=[('profiling/utils.py', """        running, self._running = self._running, None
        try:
            next(running)
        except StopIteration:
            # expected.
            pass
        else:
            raise TypeError('run() must yield just one time')
""", """        try:
            next(self._running)
        except StopIteration:
            # expected.
            self._running = None
        else:
            self._running = None
            raise TypeError('run() must yield just one time')
""")],
     needs='a clean-up half that fails (for example a timer whose stop raises), followed by a look at is_running() or another start',
     breaks='After a stop whose clean-up raised, the runnable still counts as running: it cannot be started again and a second stop is not refused.',
     demo='''
from profiling.utils import Runnable

class R(Runnable):
    fail = True
    def run(self):
        yield
        if self.fail:
            self.fail = False
            raise ValueError('clean-up failed')

r = R()
r.start()
try:
    r.stop()
except ValueError:
    pass
assert not r.is_running()
r.start()
r.stop()
'''),
dict(id='c01-exit-body-exception', property='C01',
     edits=[('profiling/utils.py', """    def __exit__(self, *exc_info):
        self.stop()
""", """    def __exit__(self, *exc_info):
        if self.is_running() or exc_info[0] is None:
            self.stop()
""")],
     needs='a with block whose body stops the profiler itself and then raises',
     breaks='Leaving a with block by an exception after the profiler was already stopped is no longer refused.',
     demo='''
from profiling.tracing import TracingProfiler
p = TracingProfiler()
try:
    with p:
        p.stop()
        raise KeyError('body')
except RuntimeError:
    pass
else:
    raise SystemExit('stopping twice was not refused')
'''),
dict(id='c02-thread-hook-order', property='C02',
     edits=[('profiling/tracing/__init__.py', """            sys.setprofile(self._profile)
            defer(sys.setprofile, None)
            threading.setprofile(self._profile)
            defer(threading.setprofile, None)
            self.timer.start(self)
            defer(self.timer.stop)
            yield
""", """            sys.setprofile(self._profile)
            defer(sys.setprofile, None)
            threading.setprofile(self._profile)
            self.timer.start(self)
            defer(self.timer.stop)
            defer(threading.setprofile, None)
            yield
""")],
     needs='a timer that fails to start',
     breaks='When the timer cannot start, the profiling hook stays registered for every thread started later.',
     demo='''
import sys, threading
from profiling.tracing import TracingProfiler
from profiling.tracing.timers import Timer

class Broken(Timer):
    def run(self, profiler):
        raise ValueError
        yield

try:
    TracingProfiler(timer=Broken()).start()
except ValueError:
    pass
seen = []
t = threading.Thread(target=lambda: seen.append(sys.getprofile()))
t.start()
t.join()
assert seen == [None], seen
'''),
dict(id='c02-itimer-previous', property='C02',
     edits=[('profiling/sampling/samplers.py', """            defer(signal.signal, signal.SIGPROF, prev_handle)
            prev_itimer = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, *prev_itimer)
            yield
""", """            prev_itimer = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, *prev_itimer)
            defer(signal.signal, signal.SIGPROF, prev_handle)
            yield
""")],
     needs='a setitimer call that fails (bad interval) while another SIGPROF disposition was set',
     breaks='If the interval timer cannot be set, the SIGPROF handler of the failed session stays installed.',
     demo='''
import signal
from profiling.sampling import SamplingProfiler
from profiling.sampling.samplers import ItimerSampler
signal.signal(signal.SIGPROF, signal.SIG_IGN)
try:
    SamplingProfiler(sampler=ItimerSampler(-1)).start()
except Exception:
    pass
assert signal.getsignal(signal.SIGPROF) == signal.SIG_IGN, signal.getsignal(signal.SIGPROF)
'''),
]
