"""What a user sees of a StatisticsViewer: its rendered screen, read back."""
import re

ROW = re.compile(r'^( *)([-+ ]) (\S+) \((\S*)\)(.*)$')
TIMES = re.compile(r'CPU +(\S+)% \((\S+)/(\S+)\)(.*)$')
NAMELESS = re.compile(r'^( *?)([-+ ]) (\S.*)$')
CELLS = {'tracing': 7, 'sampling': 4}
HEADS = {'FUNCTION': 'base', 'FUNCTION CALLS OWN /CALL % DEEP /CALL %': 'tracing', 'FUNCTION OWN % DEEP %': 'sampling'}


def bounds(text):
    """The numbers a formatted figure may stand for, in thousandths of the
    unit (ms for times, 0.001 for numbers and percents)."""
    m = re.match(r'^(\d+(?:\.\d+)?)(us|ms|sec|k|M|%)?$', text)
    if m:
        num, unit = m.groups()
        half = .5 * 10 ** -(len(num.split('.')[1]) if '.' in num else 0)
        mul = {'us': 1e-3, 'ms': 1, 'sec': 1e3, None: 1e3, 'k': 1e6, 'M': 1e9, '%': 1e3}[unit]
        num = float(num)
        return [max(0, int((num - half) * mul - 1e-6)), int((num + half) * mul + 1 + 1e-6)] if num else [0, int(half * mul)]
    m = re.match(r'^(\d+)m(?:(\d+)s)?$', text)
    if m:
        a, b = m.groups()
        t = int(a) * 60 + int(b or 0)
        return [t * 1000 - (501 if b else 0), (t + (1 if b else 60)) * 1000]
    if text == 'n/a':
        return [0, 0]
    return [-1, -2]   # matches nothing


def time_bounds(text):
    return [0, 0] if text == '0' else bounds(text)


UNITS = {'us': 1e-6, 'ms': 1e-3, 'sec': 1}


def seconds(text):
    """The times in seconds that a formatted time may stand for."""
    if text == '0':
        return [0, 0]
    m = re.match(r'^(\d+(?:\.\d+)?)(us|ms|sec)$', text)
    if m:
        num, unit = m.groups()
        half = .5 * 10 ** -(len(num.split('.')[1]) if '.' in num else 0)
        return [max(0, float(num) - half) * UNITS[unit], (float(num) + half) * UNITS[unit]]
    m = re.match(r'^(\d+)m(?:(\d+)s)?$', text)
    if m:
        a, b = m.groups()
        t = int(a) * 60 + int(b or 0)
        return [t - (.5 if b else 0), t + (.5 if b else 60)]
    return [-1, -2]   # matches nothing


class Screen(object):
    """One rendering."""
    def __init__(self, widget, cols=110, rows=70, time_bounds=time_bounds):
        self.lines = []
        for row in widget.render((cols, rows), focus=True).content():
            text = b''.join(t for _, _, t in row).decode('utf-8', 'replace')
            attrs, pos = [], 0
            for a, _, t in row:
                attrs += [a] * len(t.decode('utf-8', 'replace'))
            self.lines.append((text.rstrip(), attrs))
        self.head = None          # kind of table
        self.state = None         # normal, paused or inactive
        self.sorted = []          # sort columns, as marked
        self.cpu = self.wall = None
        self.percent = self.title = None
        self.rows = []            # dicts: depth name loc mark cells focus
        for i, (text, attrs) in enumerate(self.lines):
            words = ' '.join(text.split())
            if words in HEADS and self.head is None:
                self.head = HEADS[words]
                base = attrs[len(text) - len(text.lstrip())] or ''
                self.state = {'thead': 'normal', 'thead.paused': 'paused', 'thead.inactive': 'inactive'}.get(
                    base.replace('.sorted', ''), 'unknown')
                n = -1
                for j, ch in enumerate(text):
                    if ch != ' ' and (j == 0 or text[j - 1] == ' '):
                        n += 1
                        if (attrs[j] or '').endswith('.sorted'):
                            self.sorted.append(n)
                continue
            m = TIMES.match(text)
            if m and self.head is None:
                self.percent, self.cpu, self.wall, self.title = m.group(1), m.group(2), m.group(3), m.group(4).strip()
                continue
            m = ROW.match(text)
            if m:
                indent, mark, name, loc, cells = m.groups()
                seen = set(a for a, ch in zip(attrs, text) if ch != ' ')
                self.rows.append(dict(depth=len(indent) + 1, mark=mark, name=name, loc=loc, cells=cells.split(),
                                      focus=seen == {'focus'}))
            elif self.head in CELLS and len(text[2:].rsplit(None, CELLS[self.head])) == CELLS[self.head] + 1 and NAMELESS.match(text):
                # code of a file, which has no name.
                indent, mark, _ = NAMELESS.match(text).groups()
                loc = text[len(indent) + 2:].rsplit(None, CELLS[self.head])
                seen = set(a for a, ch in zip(attrs, text) if ch != ' ')
                self.rows.append(dict(depth=len(indent) + 1, mark=mark, name=None, loc=loc[0], cells=loc[1:], focus=seen == {'focus'}))
            elif text.strip() and not (self.head is None and self.cpu is None):
                if 'Not Available' not in text:
                    self.rows.append(dict(depth=-1, mark='', name=text.strip(), loc='', cells=[], focus=False))
        for r in self.rows:
            c = r['cells']
            if self.head == 'tracing' and len(c) == 7:
                r['figures'] = [bounds(c[0])] + [time_bounds(x) for x in c[1:3]] + [bounds(c[3])] + [time_bounds(x) for x in c[4:6]] + [bounds(c[6])]
            elif self.head == 'sampling' and len(c) == 4:
                r['figures'] = [bounds(x) for x in c]
            elif self.head == 'base' and not c:
                r['figures'] = []
            else:
                r['figures'] = None

    def percents(self):
        return bounds(self.percent) if self.percent else [0, 0]

    @property
    def focus(self):
        for i, r in enumerate(self.rows):
            if r['focus']:
                return i


def press(viewer_widget, key, cols=110, rows=70):
    return viewer_widget.keypress((cols, rows), key)


def expand_all(widget, cols=110, rows=70):
    """Opens every row by keys; returns the screen."""
    press(widget, 'esc', cols, rows)
    if not Screen(widget, cols, rows).rows:
        return Screen(widget, cols, rows)
    press(widget, 'down', cols, rows)
    for _ in range(4 * rows):
        s = Screen(widget, cols, rows)
        i = s.focus
        if i is None:
            return s
        if s.rows[i]['mark'] == '+':
            press(widget, 'right', cols, rows)
        elif i == len(s.rows) - 1:
            return s
        else:
            press(widget, 'down', cols, rows)
    return Screen(widget, cols, rows)
