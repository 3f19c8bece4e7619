"""Uses the contextual timers as the programs say, with a clock under control."""
import time

CLK = [0]


class Clock(object):
    def __call__(self):
        return CLK[0] / 4.


time.clock = Clock()
if hasattr(time, 'process_time'):
    time.process_time = time.clock

from hlib import main  # noqa


def units(x):
    return int(x * 4) if x * 4 == int(x * 4) else -10 ** 6


def run_program(item):
    import greenlet
    from profiling.tracing.timers import ContextualTimer, GreenletTimer

    class Explicit(ContextualTimer):
        now = None

        def detect_context(self):
            return self.now

    timer, gtimer = Explicit(), GreenletTimer()
    ctx = {'x': 0, 'y': 7, 'z': ('z',)}
    CLK[0] = item['clock']
    ops, state, trace = item['ops'], {'i': 0}, []
    glets = {'main': greenlet.getcurrent()}
    names = {glets['main']: 'main'}
    detect = item['detect']

    def attempt(f, *a):
        try:
            return f(*a), ''
        except Exception as e:
            return 0, type(e).__name__

    def loop(*_):
        me = names[greenlet.getcurrent()]
        while state['i'] < len(ops):
            op = ops[state['i']]
            state['i'] += 1
            k = op[0]
            ev = dict(op=k, err='')
            trace.append(ev)
            if k == 'tick':
                ev['d'] = op[1]
                CLK[0] += op[1]
            elif k in ('pause', 'resume', 'read'):
                ev['c'] = op[1]
                f = dict(pause=timer.pause, resume=timer.resume, read=timer)[k]
                if detect:
                    timer.now = ctx[op[1]]
                    r, ev['err'] = attempt(f)
                else:
                    r, ev['err'] = attempt(f, ctx[op[1]])
                if k == 'read':
                    ev['r'] = units(r)
            elif k == 'gread':
                r, ev['err'] = attempt(gtimer)
                ev['r'] = units(r)
            elif k == 'spawn':
                ev['g'] = op[1]
                g = greenlet.greenlet(loop)
                glets[op[1]] = g
                names[g] = op[1]
                del g
            elif k == 'switch':
                ev['g'] = op[1]
                if item['throw'] and glets[op[1]].gr_frame is not None and op[1] != 'main':
                    state['thrown'] = True
                    try:
                        glets[op[1]].throw(KeyError)
                    except KeyError:
                        assert state.pop('thrown', 0)
                else:
                    try:
                        glets[op[1]].switch()
                    except KeyError:
                        assert state.pop('thrown', 0)
            elif k == 'finish':
                forget(me)
                return
            elif k == 'kill':
                ev['g'] = op[1]
                victim = glets[op[1]]
                forget(op[1])
                try:
                    victim.throw()
                except KeyError:
                    assert state.pop('thrown', 0)
                del victim
            elif k == 'start':
                __, ev['err'] = attempt(gtimer.start, None)
            elif k == 'stop':
                __, ev['err'] = attempt(gtimer.stop)
            if names[greenlet.getcurrent()] != me:
                raise RuntimeError('lost')
        glets['main'].switch()

    def forget(name):
        del names[glets.pop(name)]

    loop_main(loop, state, ops)
    if gtimer.is_running():
        gtimer.stop()
    greenlet.settrace(None)
    return trace


def loop_main(loop, state, ops):
    import greenlet
    try:
        loop()
    except greenlet.error:
        pass
    while state['i'] < len(ops):
        loop()


def run(payload):
    return [run_program(item) for item in payload]


if __name__ == '__main__':
    main(run)
