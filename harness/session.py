"""Runs sessions of real profilers, also wrapped ones, and looks at their
results, dump files and viewers.  The clocks are under control."""
import os, pickle, re, signal, sys, time

CLK = [0, 0]   # cpu and wall clock in ms


class Clock(object):
    def __init__(self, i):
        self.i = i

    def __call__(self):
        return CLK[self.i] / 1000.


class Wall(object):
    """Stands in for time.time while a program runs."""
    base = 1.5e9

    def __call__(self):
        return self.base + CLK[1] / 1000.


time.clock = Clock(0)
if hasattr(time, 'process_time'):
    time.process_time = time.clock
real_time = time.time
time.time = Wall()

from hlib import main, Injected  # noqa
import screen  # noqa

SCRATCH = os.environ['VERIF_SCRATCH']
SAMPLER = [None]


def leaf(d):
    CLK[0] += d
    CLK[1] += d
    s = SAMPLER[0]
    if s is not None and s.is_running():
        s.profiler.sample(sys._getframe(1))


def w1(path, d):
    if path:
        FNS[path[0]](path[1:], d)
    else:
        leaf(d)


def w2(path, d):
    if path:
        FNS[path[0]](path[1:], d)
    else:
        leaf(d)
    w2.done = True


def w3(path, d):
    if not path:
        return leaf(d)
    return FNS[path[0]](path[1:], d)


FNS = {1: w1, 2: w2, 3: w3}
NAMES = {'w1': 1, 'w2': 2, 'w3': 3}


def ms(x):
    n = int(round(x * 1000))
    return n if abs(x * 1000 - n) < 1e-3 else -10 ** 6


def rows_of(stats):
    """(path, own hits, time) of the nodes of the program's functions."""
    res, todo = [], [((), stats)]
    while todo:
        p, s = todo.pop()
        for x in s:
            if x.name in NAMES:
                q = p + (NAMES[x.name],)
                res.append([list(q), int(x.own_hits), ms(x.deep_time)])
                todo.append((q, x))
            elif p and x.name != 'leaf':
                res.append([list(p) + [0], 0, 0])
    return res


def table_rows(s):
    res, path = [], []
    for r in s.rows:
        del path[max(0, r['depth'] - 1):]
        path.append(NAMES.get(r['name'], 0))
        if not all(path):
            if any(path) and r['name'] != 'leaf':
                res.append([path[:], [0, 0], [0, 0]])
            continue
        f = r['figures']
        if f is None:
            res.append([path[:], [-1, -2], [-1, -2]])
        elif s.head == 'tracing':
            res.append([path[:], f[0], f[4]])
        elif s.head == 'sampling':
            res.append([path[:], f[0], f[2]])
        else:
            res.append([path[:], [-1, -2], [-1, -2]])
    return res


def run_program(item):
    import click, urwid
    from profiling.__main__ import cli
    from profiling.profiler import ProfilerWrapper
    from profiling.remote.background import BackgroundProfiler
    from profiling.sampling import SamplingProfiler
    from profiling.sampling.samplers import Sampler
    from profiling.tracing import TracingProfiler

    class Stub(Sampler):
        fail = False

        def run(self, profiler):
            if self.fail:
                raise Injected('start')
            self.profiler = profiler
            yield

    class Wrapper(ProfilerWrapper):
        def start(self):
            return self.profiler.start()

        def stop(self):
            return self.profiler.stop()

    class Custom(TracingProfiler):
        """A profiler of a user's own."""

    CLK[:] = item['clock']
    frame = sys._getframe()
    if item['kind'] == 'tracing':
        inner = TracingProfiler(base_frame=frame)
        SAMPLER[0] = None
    else:
        SAMPLER[0] = Stub()
        inner = SamplingProfiler(base_frame=frame, sampler=SAMPLER[0])
    profiler = inner
    for w in item['wrap']:
        if w == 'background':
            profiler = BackgroundProfiler(profiler)
            profiler.prepare()
        else:
            profiler = Wrapper(profiler)

    def foreign(frame, event, arg):
        pass
    seen = []
    urwid.MainLoop.run = lambda self: seen.append(self.widget)
    trace = [dict(op='kind', kind=item['kind'], err='')]
    for op in item['ops']:
        k = op[0]
        ev = dict(op=k, err='')
        trace.append(ev)
        if k == 'tick':
            ev.update(c=op[1], w=op[2])
            CLK[0] += op[1]
            CLK[1] += op[2]
        elif k == 'work':
            ev.update(p=op[1], d=op[2])
            FNS[op[1][0]](op[1][1:], op[2])
        elif k in ('start', 'stop'):
            try:
                getattr(profiler, k)()
            except Exception as e:
                ev['err'] = type(e).__name__
        elif k == 'failstart':
            if item['kind'] == 'tracing':
                sys.setprofile(foreign)
            else:
                SAMPLER[0].fail = True
            try:
                profiler.start()
            except Exception as e:
                ev['err'] = type(e).__name__
            else:
                ev['err'] = 'none'
            if item['kind'] == 'tracing':
                sys.setprofile(None)
            else:
                SAMPLER[0].fail = False
        elif k == 'result':
            stats, cpu, wall = profiler.result()
            ev.update(rows=rows_of(stats), cpu=ms(cpu), wall=ms(wall))
        else:
            # what is looked at takes part in no session.
            hook = sys.getprofile()
            sys.setprofile(None)
            try:
                look(k, op[1], ev, profiler, cli, seen)
            except Exception as e:
                ev['err'] = type(e).__name__
                ev.update(rows=[], table='', cpu=[0, 0], wall=[0, 0], title='', expect='')
                if k == 'file':
                    ev.update(cpu=0, wall=0)
            sys.setprofile(hook)
    if profiler.is_running():
        profiler.stop()
    return trace


def look(k, proto, ev, profiler, cli, seen):
    path = os.path.join(SCRATCH, 'dump-%d.prf' % proto)
    if k in ('file', 'viewcmd'):
        profiler.dump(path, proto)
    if k == 'file':
        with open(path, 'rb') as f:
            cls, (stats, cpu, wall) = pickle.load(f)
        from profiling.sampling import SamplingStatisticsTable
        from profiling.tracing import TracingStatisticsTable
        ev['table'] = {TracingStatisticsTable: 'tracing', SamplingStatisticsTable: 'sampling'}.get(cls.table_class, 'other')
        ev.update(rows=rows_of(stats), cpu=ms(cpu), wall=ms(wall))
        return
    if k == 'view':
        widget = profiler.make_viewer(title='a title').widget
        ev['expect'] = 'a title'
    else:
        del seen[:]
        time.time = real_time
        try:
            cli.main(['view', path], standalone_mode=False)
        finally:
            time.time = Wall()
        widget = seen[0]
        ev['expect'] = os.path.basename(path)
    s = screen.expand_all(widget)
    title = re.sub(r' \d\d:\d\d:\d\d$', '', s.title)   # followed by the time of the dump
    ev.update(table=s.head, rows=table_rows(s), cpu=screen.time_bounds(s.cpu), wall=screen.time_bounds(s.wall), title=title)


def run(payload):
    return [run_program(item) for item in payload]


if __name__ == '__main__':
    main(run)
