"""Animating a value and stopping again keeps what it holds."""
from harness.lib import at, reload, soup_of, warm, T
import sangfroid
import sangfroid.value as v
from sangfroid.value import Waypoint

BOUNDS = (
    'Real, Angle, Integer, Bool, String, Time, Vector, Color and Gradient, '
    'in a new layer, in a layer of a document, and on their own; the parts '
    "of a group's transformation; contents any multiple of 2^-20 up to "
    '+-1000 (integers to 10^6, texts of up to 2 characters, channels '
    'multiples of 2^-8); every sequence of up to 4 settings of is_animated; '
    'timelines of 2 or 3 waypoints at any times (multiples of 1/8 frame up '
    'from -1000 to 2000, whole frames in files), in any order in the file')
ASSUMPTIONS = ['transformations as a whole are not animated, only their '
               'parts: that is how Synfig does it',
               'Real and Vector contents are compared to 1e-9, Color to '
               '1e-6']
TYPES = ['Real', 'Angle', 'Integer', 'Bool', 'String', 'Time', 'X_Y',
         'Color', 'Gradient']
FIELD = {'Real': ('Circle', 'radius'), 'Angle': ('Rotate', 'amount'),
         'Integer': ('Star', 'points'), 'Bool': ('Circle', 'invert'),
         'String': ('Text', 'text'), 'Time': ('Group', 'time_offset'),
         'X_Y': ('Circle', 'origin'), 'Color': ('Circle', 'color'),
         'Gradient': ('Linear_Gradient', 'gradient')}


def cells(tier):
    out = []
    for t in TYPES:
        for where in ['own', 'layer', 'doc']:
            out.append({'kind': 'toggle', 't': t, 'where': where})
            out.append({'kind': 'history', 't': t, 'where': where})
            out.append({'kind': 'first', 't': t, 'where': where, 'n': 2})
        if tier == 'thorough':
            out.append({'kind': 'first', 't': t, 'where': 'doc', 'n': 3})
        out.append({'kind': 'file', 't': t, 'n': 2})
    out.append({'kind': 'first', 't': 'Real', 'where': 'doc', 'n': 3})
    out.append({'kind': 'file', 't': 'Real', 'n': 3})
    for part in ['offset', 'angle', 'skew_angle', 'scale']:
        out.append({'kind': 'part', 'part': part})
    return out


def make(p, t, tag, text=False):
    """Some contents for a value of type t."""
    if t in ('Real', 'Angle'):
        if text:
            return p.int('x' + tag, -1000, 1000) + 0.5
        return p.real('x' + tag, -1000, 1000, 20)
    if t == 'Integer':
        return p.int('x' + tag, -1000000, 1000000)
    if t == 'Bool':
        return bool(p.choice('x' + tag, [True, False]))
    if t == 'String':
        return p.text('x' + tag, 0, 2, 'a<&\u00e9')
    if t == 'Time':
        return at(p.int('x' + tag, 0, 5000))
    if t == 'X_Y':
        if text:
            return (p.int('x' + tag, -1000, 1000) + 0.5,
                    p.int('y' + tag, -1000, 1000) + 0.25)
        return (p.real('x' + tag, -1000, 1000, 20),
                p.real('y' + tag, -1000, 1000, 20))
    if t == 'Color':
        return (p.real('r' + tag, 0, 1, 8), 0.25, 0.5,
                p.real('a' + tag, 0, 1, 8))
    return {0.0: (p.real('r' + tag, 0, 1, 8), 0.25, 0.5, 1.0),
            p.int('q' + tag, 1, 20) + 0.5: (0.75, 0.5, 0.25, 1.0)}


def holds(p, val, t, x, label):
    """val is unanimated and holds x."""
    p.check(not val.is_animated, label + '-static')
    p.check(type(val).__name__ == t or t == 'X_Y', label + '-type')
    p.check(len(val.timeline) == 0, label + '-no-timeline')
    if t in ('Real', 'Angle'):
        p.check(p.close(val.value, x, 1e-9), label + '-contents')
    elif t in ('Integer', 'Bool', 'String'):
        p.check(val.value == x, label + '-contents')
    elif t == 'Time':
        p.check(val.value.frames == x.frames, label + '-contents')
    elif t == 'X_Y':
        p.check(p.close(val.x, x[0], 1e-9) & p.close(val.y, x[1], 1e-9),
                label + '-contents')
    elif t == 'Color':
        got = val.as_tuple()
        p.check(len(got) == len(x), label + '-contents')
        for a, b in zip(got, x):
            p.check(p.close(a, b, 1e-6), label + '-contents')
    else:
        got = list(val.items())
        p.check(len(got) == len(x), label + '-contents')
        for (a, b), (c, d) in zip(got, x.items()):
            p.check(p.close(a, c, 1e-9), label + '-contents')
            for e, f in zip(b.as_tuple(), d):
                p.check(p.close(e, f, 1e-6), label + '-contents')


def one(p, val, t, x, label):
    """val is animated, and has one waypoint, which holds x."""
    p.check(val.is_animated, label + '-animated')
    p.check(val.our_type == cname(t) or
            val.tag['type'] == cname(t), label + '-type')
    ws = list(val.timeline)
    p.check(len(ws) == 1, label + '-one-waypoint')
    p.check(ws[0].time.frames == 0, label + '-at-zero')
    holds(p, ws[0].value, t, x, label + '-waypoint')


def cname(t):
    return 'vector' if t == 'X_Y' else t.lower()


class Holder:
    def __init__(self, t, where, x):
        lname, self.field = FIELD[t]
        self.where = where
        if where == 'own':
            self.own = getattr(v, t)(x)
            return
        self.layer = getattr(sangfroid.layer, lname)()
        self.layer.desc = 'this one'
        self.others = []
        if where == 'doc':
            self.a = sangfroid.Animation()
            self.a.append(sangfroid.layer.Circle())
            self.a.append(self.layer)
            self.a.append(sangfroid.layer.Rotate())
        setattr(self.layer, self.field, x)
        self.before = self.rest()

    def get(self):
        if self.where == 'own':
            return self.own
        return getattr(self.layer, self.field)

    def rest(self):
        """Everything but the value."""
        if self.where == 'own':
            return None
        out = [str(self.layer.desc), sorted(self.layer.tag.attrs.items())]
        for param in self.layer.tag.find_all('param', recursive=False):
            if param['name'] != self.field:
                out.append(str(param))
            else:
                out.append([c.name for c in param.contents
                            if c.name is not None] == ['x'])
        if self.where == 'doc':
            out.append([str(c.tag) for c in self.a.children
                        if c.tag is not self.layer.tag])
            out.append([c.tag is self.layer.tag for c in self.a.children])
            out.append(sorted(self.a.tag.attrs.items()))
        return out

    def check_rest(self, p, label):
        if self.where != 'own':
            p.check(self.rest() == self.before, label + '-others')


def run(p, cell):
    kind = cell['kind']
    if kind == 'toggle':
        t = cell['t']
        x = make(p, t, '')
        h = Holder(t, cell['where'], x)
        val = h.get()
        holds(p, val, t, x, 'start')
        warm(val)
        val.is_animated = True
        one(p, h.get(), t, x, 'on')
        one(p, val, t, x, 'on-same-object')
        h.check_rest(p, 'on')
        val.is_animated = True
        one(p, h.get(), t, x, 'on-again')
        h.check_rest(p, 'on-again')
        h.get().is_animated = False
        holds(p, h.get(), t, x, 'off')
        h.check_rest(p, 'off')
        w = h.get()
        w.is_animated = False
        holds(p, h.get(), t, x, 'off-again')
        holds(p, w, t, x, 'off-same-object')
        h.check_rest(p, 'off-again')
    elif kind == 'history':
        t = cell['t']
        x = make(p, t, '')
        h = Holder(t, cell['where'], x)
        state = False
        for i in range(3):
            state = p.choice(f'b{i}', [True, False, 1, 0])
            h.get().is_animated = state
            if state:
                one(p, h.get(), t, x, 'on')
            else:
                holds(p, h.get(), t, x, 'off')
        h.check_rest(p, 'history')
    elif kind == 'first':
        first(p, cell)
    elif kind == 'file':
        infile(p, cell)
    else:
        part(p, cell)


def first(p, cell):
    t, n = cell['t'], cell['n']
    h = Holder(t, cell['where'], make(p, t, ''))
    cls = getattr(v, t)
    fs = []
    best = None
    for i in range(n):
        f = p.real(f'f{i}', -1000, 2000, 3)
        x = make(p, t, str(i))
        for g in fs:
            p.assume(f != g)
        h.get().timeline[at(f)] = cls(x)
        if best is None or f < best[0]:
            best = (f, x)
        fs.append(f)
    h.check_rest(p, 'timeline')
    p.check(len(h.get().timeline) == n, 'timeline-length')
    h.get().is_animated = True
    p.check(len(h.get().timeline) == n, 'already-animated')
    h.get().is_animated = False
    holds(p, h.get(), t, best[1], 'earliest')
    h.check_rest(p, 'off')


def infile(p, cell):
    """Waypoints in a file, in any order."""
    t, n = cell['t'], cell['n']
    cls = getattr(v, t)
    ws = ''
    best = None
    fs = []
    for i in range(n):
        f = p.int(f'f{i}', -99, 999)
        for g in fs:
            p.assume(f != g)
        fs.append(f)
        x = make(p, t, str(i), text=True)
        ws += (f'<waypoint time="{f}f" before="linear" after="linear">'
               f'{cls(x).tag}</waypoint>\n')
        if best is None or f < best[0]:
            best = (f, x)
    soup = soup_of(f'<r><animated type="{cname(t)}">\n{ws}</animated></r>')
    r = v.Value.from_tag(soup.r.animated)
    p.check(r.is_animated, 'animated')
    p.check(len(r.timeline) == n, 'length')
    r.is_animated = False
    holds(p, r, t, best[1], 'file-earliest')
    p.check(soup.r.find(recursive=False) is r.tag, 'in-place')


def part(p, cell):
    g = sangfroid.layer.Group()
    a = sangfroid.Animation()
    a.append(g)
    t = 'X_Y' if cell['part'] in ('offset', 'scale') else 'Angle'
    x = make(p, t, '')
    part = cell['part']
    setattr(g, part, x)
    others = [q for q in ['offset', 'angle', 'skew_angle', 'scale']
              if q != part]
    before = [str(getattr(g, q).tag) for q in others]
    getattr(g, part).is_animated = True
    one(p, getattr(g, part), t, x, 'part-on')
    one(p, g.transformation[part], t, x, 'part-on')
    p.check([str(getattr(g, q).tag) for q in others] == before,
            'other-parts')
    f = p.int('f', 1, 1000)
    getattr(g, part).timeline[f] = make(p, t, '2')
    p.check(len(g.transformation[part].timeline) == 2, 'part-timeline')
    getattr(g, part).is_animated = False
    holds(p, getattr(g, part), t, x, 'part-off')
    p.check([str(getattr(g, q).tag) for q in others] == before,
            'other-parts')
