V = 'profiling/viewer.py'
BASE = '''
import datetime, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from profiling.profiler import Profiler
from profiling.sampling import SamplingProfiler
from profiling.tracing import TracingProfiler
from profiling.stats import FrozenStatistics
from profiling.viewer import StatisticsViewer
def tree(name, hits, time, *children):
    return FrozenStatistics(name, name and 'f.py', name and 1, name and 'm', hits, time, list(children))
def lines(viewer, rows=60):
    return [b''.join(t for _, _, t in row).decode().rstrip() for row in viewer.widget.render((100, rows), focus=True).content()]
def names(viewer):
    return [l.split('(m:1)')[0].split()[-1] for l in lines(viewer) if '(m:1)' in l]
def focused(viewer):
    for row in viewer.widget.render((100, 60), focus=True).content():
        for a, _, t in row:
            if a == 'focus' and b'+' not in t and b'-' not in t and t.strip():
                return t.decode().split('(')[0].strip()
def press(viewer, *keys):
    for k in keys:
        viewer.widget.keypress((100, 60), k)
        lines(viewer)
viewer = StatisticsViewer()
'''
SEEDS = [
dict(id='c22-resume-inactive', property='C22',
     edits=[(V, """            del self._paused_result
        except AttributeError:
            pass
        self.update_result()
""", """            del self._paused_result
        except AttributeError:
            pass
        if self.active:
            self.update_result()
        else:
            self.table.update_frame()
""")],
     needs='a result while the viewer is paused, and the connection lost before it is resumed', breaks='The viewer goes on showing the result at which it was paused.',
     demo=BASE + '''
viewer.activate()
viewer.set_result(tree(None, 0, 0, tree('first', 1, 1)))
viewer.pause()
viewer.set_result(tree(None, 0, 0, tree('second', 1, 1)))
viewer.inactivate()
viewer.resume()
assert names(viewer) == ['second'], names(viewer)
'''),
dict(id='c22-title-kept', property='C22',
     edits=[(V, "        self.title = title\n        self.at = at\n", "        if title or at:\n            self.title = title\n            self.at = at\n")],
     needs='a result without a title after one with a title', breaks='The title and time of an earlier result are shown with a later one.',
     demo=BASE + '''
viewer.set_result(tree(None, 0, 0, tree('first', 1, 1)), title='first title')
viewer.set_result(tree(None, 0, 0, tree('second', 1, 1)))
assert 'first title' not in '\\n'.join(lines(viewer))
'''),
dict(id='c22-flat-stale', property='C22',
     edits=[(V, """        if self.layout == FLAT:
            stats = FlatFrozenStatistics.flatten(stats)
""", """        if self.layout == FLAT:
            # flattening is slow: do it once.
            if self._flat is None or len(self._flat[0]) != len(stats):
                self._flat = (stats, FlatFrozenStatistics.flatten(stats))
            stats = self._flat[1]
"""), (V, "    title = None\n    stats = None\n", "    title = None\n    stats = None\n    _flat = None\n")],
     needs='the flat layout and a later result with as many top-level functions', breaks='The flat layout shows the figures of an earlier result.',
     demo=BASE + '''
viewer.set_profiler_class(TracingProfiler)
press(viewer, '\\\\')
viewer.set_result(tree(None, 0, 0, tree('f', 1, 1)), 1, 1)
viewer.set_result(tree(None, 0, 0, tree('f', 7, 1)), 1, 1)
row, = [l for l in lines(viewer) if '(m:1)' in l]
assert row.split()[2] == '7', row
'''),
dict(id='c23-focus-root', property='C23',
     edits=[(V, """                    node = node.get_child_node(stats)
                    break
            else:
                break
        return node
""", """                    node = node.get_child_node(stats)
                    break
            else:
                return node.get_root()
        return node
""")],
     needs='a focused call path that the next result has only partly', breaks='The focus is lost instead of moving to the nearest existing caller.',
     demo=BASE + '''
viewer.set_result(tree(None, 0, 0, tree('a', 1, 1, tree('b', 1, 1))))
lines(viewer)
press(viewer, 'down', 'right', 'right')
assert focused(viewer) == 'b', focused(viewer)
viewer.set_result(tree(None, 0, 0, tree('a', 1, 1, tree('c', 1, 1))))
assert focused(viewer) == 'a', focused(viewer)
'''),
dict(id='c23-fold-forgotten', property='C23',
     edits=[(V, """        if hash(stats) in self.table._expanded_stat_hashes:
            widget.expand()
""", """        if hash(stats) in self.table._expanded_stat_hashes:
            widget.expand()
            return True
"""), (V, """        super(StatisticsNode, self).setup_widget(widget)
        if self""", """        if super(StatisticsNode, self).setup_widget(widget):
            return
        if self""")],
     needs='a function expanded before a refresh, folded after it, and another refresh', breaks='The folded function is expanded again by the next result.',
     demo=BASE + '''
def result():
    viewer.set_result(tree(None, 0, 0, tree('a', 1, 1, tree('b', 1, 1))))
    return names(viewer)
result()
press(viewer, 'down', 'right')
assert result() == ['a', 'b']
press(viewer, 'left')
assert names(viewer) == ['a']
assert result() == ['a']
'''),
dict(id='c23-hot-order', property='C23',
     edits=[(V, """            node = widget.get_node()
            widget.expand()
            widget = widget.first_child()
        self""", """            node = widget.get_node()
            widget.expand()
            if node.get_depth() > 1 and isinstance(node, StatisticsNode):
                children = node.get_value().sorted(type(self).order)
                widget = children and node.get_child_widget(children[0])
            else:
                widget = widget.first_child()
        self""")],
     needs='another sort order than the initial one and a deep tree', breaks='The hotspot follows other rows than the first ones of the current order.',
     demo=BASE + '''
viewer.set_profiler_class(TracingProfiler)
viewer.set_result(tree(None, 0, 0, tree('a', 1, 9, tree('b', 1, 9, tree('slow', 1, 8), tree('often', 9, 1)))), 9, 9)
lines(viewer)
press(viewer, ']', ']', ']')   # sorted by the number of calls
assert names(viewer) == ['a']
press(viewer, '>')
assert names(viewer) == ['a', 'b', 'often', 'slow'], names(viewer)
assert focused(viewer) == 'often', focused(viewer)
'''),
dict(id='c24-percent-parent', property='C24',
     edits=[('profiling/sampling/__init__.py', "root_stats = node.get_root().get_value()", "root_stats = (node.get_parent() or node).get_value()")],
     needs='an expanded function that is not a leaf', breaks='Percentages below the top level are not relative to all samples.',
     demo=BASE + '''
viewer.set_profiler_class(SamplingProfiler)
viewer.set_result(tree(None, 0, 0, tree('a', 1, 0, tree('b', 1, 0)), tree('c', 2, 0)))
lines(viewer)
press(viewer, '>')
press(viewer, 'left', '>')
press(viewer, 'esc', 'down', 'right', 'down', 'right', 'down', 'down')
row, = [l for l in lines(viewer) if 'b (m:1)' in l] or ['']
assert row.split()[3:] == ['25.0', '1', '25.0'] or row.split()[2:] == ['1', '25.0', '1', '25.0'], row
'''),
dict(id='c24-first-hundred', property='C24',
     edits=[(V, "        return stats.sorted(self.table.order)\n", "        return stats.sorted(self.table.order)[:100]\n")],
     needs='a function with more than a hundred different callees', breaks='Further children are not listed.',
     demo=BASE + '''
viewer.set_result(tree(None, 0, 0, *[tree('f%d' % i, 1, 1) for i in range(130)]))
assert len([l for l in lines(viewer, 200) if '(m:1)' in l]) == 130
'''),
dict(id='c24-same-order', property='C24',
     edits=[(V, "        return stats.sorted(self.table.order)\n", "        if self.get_depth() > 1:\n            return stats.sorted(type(self.table).order)\n        return stats.sorted(self.table.order)\n")],
     needs='another sort order and an expanded function at the second level', breaks='Rows below the second level keep the initial order.',
     demo=BASE + '''
viewer.set_profiler_class(TracingProfiler)
viewer.set_result(tree(None, 0, 0, tree('a', 1, 9, tree('b', 1, 9, tree('slow', 1, 8), tree('often', 9, 1)))), 9, 9)
lines(viewer)
press(viewer, '>', ']', ']', ']')
assert names(viewer) == ['a', 'b', 'often', 'slow'], names(viewer)
'''),
]
