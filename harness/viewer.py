"""Plays histories of results and keys on the real viewer; records what its
screen shows after every step."""
import datetime, random
from math import ceil, floor
from hlib import main
from screen import Screen, seconds

KEYS = {'space': ' '}
VIM = {'left': 'h', 'down': 'j', 'up': 'k', 'right': 'l'}
GAME = {'left': 'a', 'down': 's', 'up': 'w', 'right': 'd'}


class Session(object):
    def __init__(self, item):
        from profiling.profiler import Profiler
        from profiling.sampling import SamplingProfiler
        from profiling.stats import FrozenStatistics
        from profiling.tracing import TracingProfiler
        from profiling.viewer import StatisticsViewer
        self.item, self.rng = item, random.Random(item['seed'])
        self.kinds = {'base': Profiler, 'tracing': TracingProfiler, 'sampling': SamplingProfiler}
        self.unit = 2.0 ** item['scale']
        self.fns = [tuple(f) for f in item['fns']]
        self.ids = {}
        for i, (name, filename, lineno, module) in enumerate(self.fns):
            self.ids[name, '%s:%s' % (module or filename, lineno)] = i + 1
        self.results = [self.make(FrozenStatistics, r) for r in item['results']]
        self.viewer = StatisticsViewer()
        self.names = self.rng.choice([{}, {}, VIM, GAME])

    def make(self, cls, nodes):
        made = {}
        for n in nodes:
            if n['p']:
                name, filename, lineno, module = self.fns[n['p'][-1] - 1]
            else:
                name = filename = lineno = module = None
            made[tuple(n['p'])] = s = cls(name, filename, lineno, module, n['h'], n['t'] * self.unit, [])
            if n['p']:
                made[tuple(n['p'][:-1])].children.append(s)
        return made[()]

    def units(self, text):
        """The figures that a text may stand for."""
        b = seconds(text)
        if b == [0, 0]:
            return b
        return [floor(b[0] / self.unit - 1e-6), ceil(b[1] / self.unit + 1e-6)]

    def apply(self, op):
        v = self.viewer
        if op[0] == 'result':
            m = self.item['meta'][op[1] - 1]
            at = datetime.datetime(2020, 1, 1, *m['at']) if m['at'] else None
            v.set_result(self.results[op[1] - 1], m['cpu'] * self.unit, m['wall'] * self.unit, m['name'] or None, at)
        elif op[0] == 'active':
            (v.activate if op[1] else v.inactivate)()
        elif op[0] == 'kind':
            v.set_profiler_class(self.kinds[op[1]])
        elif op[0] == 'pause':
            v.pause()
        elif op[0] == 'resume':
            v.resume()
        elif op[0] == 'key':
            v.widget.keypress((110, 900), KEYS.get(op[1], self.names.get(op[1], op[1])))

    def shows(self):
        s = Screen(self.viewer.widget, 110, 900, self.units)
        rows, path, focus = [], [], 0
        for i, r in enumerate(s.rows):
            fn = self.ids.get((r['name'], r['loc']), 0)
            d = r['depth']
            path = path[:d - 1] + [fn] if 0 < d <= len(path) + 1 else [0]
            rows.append(dict(p=path, mark=r['mark'], figures=r['figures'] if r['figures'] is not None else [[-1, -2]]))
            if r['focus']:
                focus = i + 1
        return dict(head=s.head or '', state=s.state or '', sorted=s.sorted, rows=rows, focus=focus,
                    cpu=self.units(s.cpu) if s.cpu else [0, 0], wall=self.units(s.wall) if s.wall else [0, 0],
                    percent=s.percents(), title=s.title or '')


def play(item):
    s = Session(item)
    trace = [dict(op='start', arg=0, crash='', results=item['results'], meta=item['meta'], rank=item['rank'], **s.shows())]
    for op in item['ops'][1:]:
        ev = dict(op=op[0], arg=op[1] if len(op) > 1 else 0, crash='')
        try:
            s.apply(op)
            ev.update(s.shows())
        except Exception as e:
            ev.update(trace[-1])
            ev.update(op=op[0], arg=op[1] if len(op) > 1 else 0, crash='%s: %s' % (type(e).__name__, e))
            ev.pop('results', 0), ev.pop('meta', 0), ev.pop('rank', 0)
        trace.append(ev)
        if ev['crash']:
            break
    return trace


def run(payload):
    from profiling.viewer import bind_game_keys, bind_vim_keys
    bind_game_keys(), bind_vim_keys()
    return [play(x) for x in payload]


if __name__ == '__main__':
    main(run)
