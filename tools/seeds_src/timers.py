SEEDS = [
dict(id='c13-throw', property='C13',
     edits=[('profiling/tracing/timers.py', """        origin, target = args
        self.pause(id(origin))
""", """        if event != 'switch':
            # there is no target to resume.
            return
        origin, target = args
        self.pause(id(origin))
""")],
     needs='an exception thrown into another greenlet (greenlet.throw, gevent kill or timeout)', breaks='The greenlet that gets an exception is not resumed and its origin not paused.',
     demo='''
import time
clk = [0.]
class Clock(object):
    def __call__(self):
        return clk[0]
import greenlet
from profiling.tracing.timers import GreenletTimer
timer = GreenletTimer()
timer.clock = Clock()
main = greenlet.getcurrent()
times = []
def body():
    try:
        main.switch()
    except KeyError:
        pass
    t = timer()
    clk[0] += 5
    times.append(timer() - t)
g = greenlet.greenlet(body)
timer.start(None)
g.switch()
g.throw(KeyError)
timer.stop()
assert times == [5], times
'''),
dict(id='c13-falsy-context', property='C13',
     edits=[('profiling/tracing/timers.py', """    def pause(self, context=None):
        if context is None:
            context = self.detect_context()
""", """    def pause(self, context=None):
        context = context or self.detect_context()
""")],
     needs='a context identified by a false value such as 0', breaks='Pausing that context pauses the current one instead.',
     demo='''
clk = [10.]
class Clock(object):
    def __call__(self):
        return clk[0]
from profiling.tracing.timers import ContextualTimer
class T(ContextualTimer):
    clock = Clock()
    def detect_context(self):
        return 1
t = T()
t.pause(0)
a, b = t(0), t(1)
clk[0] += 5
assert (t(0) - a, t(1) - b) == (0, 5), (t(0) - a, t(1) - b)
'''),
]
