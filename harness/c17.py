"""A refused assignment leaves the document exactly as it was."""
from harness.lib import at, soup_of, doc, T
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L

BOUNDS = (
    'every type of value, animated (2 waypoints, thorough also 1) or not, by layer '
    'field, by name, by .value and by timeline; given None, numbers, '
    'texts of up to 3 characters, tuples, lists, sets and dicts of '
    'several shapes, objects which cannot be turned into text or numbers, '
    'values of all other types, waypoints, layers; timelines of waypoints '
    'of mixed types, frame rates and things which are not waypoints; any '
    'text of up to 3 letters as interpolation; every attribute of layers '
    'and animations')
ASSUMPTIONS = ['nothing is claimed of assignments which are accepted']
TYPES = {'Real': ('Circle', 'radius'), 'Integer': ('Star', 'points'),
         'Bool': ('Circle', 'invert'), 'Angle': ('Rotate', 'amount'),
         'Time': ('Timeloop', 'link_time'), 'Color': ('Circle', 'color'),
         'X_Y': ('Circle', 'origin'),
         'Gradient': ('Linear_Gradient', 'gradient'),
         'String': ('Text', 'text'), 'BlendMethod': ('Circle',
                                                     'blend_method'),
         'Transformation': ('Group', 'transformation')}
WAYS = ['field', 'name', 'value', 'timeline']


def cells(tier):
    out = []
    for t in TYPES:
        for way in WAYS:
            if t == 'Transformation' and way == 'timeline':
                continue
            for n in ((0, 1, 2) if tier == 'thorough' else (0, 2)):
                if t == 'Transformation' and n:
                    continue
                out.append({'kind': 'value', 't': t, 'way': way, 'n': n})
    for t in TYPES:
        if t != 'Transformation':
            for n in (0, 1, 2):
                out.append({'kind': 'timeline', 't': t, 'n': n})
    out.append({'kind': 'part'})
    out.append({'kind': 'gradient'})
    out.append({'kind': 'interpolation'})
    out.append({'kind': 'attrs'})
    out.append({'kind': 'animation'})
    out.append({'kind': 'canvas'})
    return out


class Unprintable:
    def __str__(self):
        raise ValueError('no')
    __repr__ = __str__

    def __float__(self):
        raise ValueError('no')

    def __int__(self):
        raise ValueError('no')

    def __bool__(self):
        raise ValueError('no')


class Items:
    def items(self):
        raise ValueError('no')


class BadAfterOne:
    """A mapping which fails part of the way through."""
    def __init__(self, k, x):
        self.k, self.x = k, x

    def items(self):
        yield self.k, self.x
        raise ValueError('no')

    def keys(self):
        return [self.k]

    def __len__(self):
        return 2

    def __contains__(self, k):
        return k == self.k


def sample(t, i=0):
    if t in ('Real', 'Angle'):
        return 1.5 + i
    if t in ('Integer', 'BlendMethod'):
        return 3 + i
    if t == 'Bool':
        return True
    if t == 'Time':
        return at(7 + i)
    if t == 'Color':
        return (0.5, 0.25, 0.75, 1.0)
    if t == 'X_Y':
        return (1.5 + i, 2.5)
    if t == 'Gradient':
        return {0.0: (0.5, 0.25, 0.75, 1.0), 1.0: (0.0, 0.25, 0.5, 1.0)}
    if t == 'String':
        return 'wombat'
    return {'offset': (1.5, 2.5), 'angle': 30.0, 'skew_angle': 0.25,
            'scale': (2.5, 0.5)}


def value(t, i=0):
    return getattr(v, t)(sample(t, i))


def scene(p, t, n):
    """A document with one of that type, animated with n waypoints."""
    cls, f = TYPES[t]
    a = sangfroid.Animation()
    a.append(L.Text('before'))
    lay = getattr(L, cls)()
    a.append(lay)
    a.append(L.Circle())
    name = f
    if n == 0:
        lay[name] = value(t)
    else:
        for i in range(n):
            lay[name].timeline[i * 4 + 3] = value(t, i)
    # as files have them: whatever else is there stays there
    tag = lay[name].tag
    tag['guid'] = 'BFBD9ED1ABEBEFB4'
    tag['wombat'] = 'x'
    lay.tag['group'] = 'set'
    return a, lay, f


def bad(p, t):
    """Something which may not do."""
    kind = p.choice('bad', [
        'none', 'number', 'text', 'empty', 'tuple1', 'tuple3', 'tuple5',
        'tupletext', 'list', 'dict', 'dictnone', 'dictpart', 'dictbad',
        'set', 'object', 'type', 'unprintable', 'items', 'badafter', 'other',
        'values', 'waypoint', 'layer', 'bytes', 'huge', 'nan', 'lambda'])
    if kind == 'none':
        return None
    if kind == 'number':
        return p.int('x', -9, 9)
    if kind == 'text':
        return p.text('x', 0, 3, 'z1 ' if t != 'Time' else '-sf')
    if kind == 'empty':
        return p.choice('x', [(), [], {}])
    if kind == 'tuple1':
        return (p.int('x', -9, 9),)
    if kind == 'tuple3':
        return p.choice('x', [(1, None, 2), ('a', 'b', 'c'), (1, 2, [])])
    if kind == 'tuple5':
        return (1, 2, 3, 4, 5)
    if kind == 'tupletext':
        return p.choice('x', [('a', 1), (1, 'a'), (None, 1), (1, None),
                              (1.5, [2])])
    if kind == 'list':
        return p.choice('x', [[1], [1, 2], ['a', None], [Unprintable()]])
    if kind == 'dict':
        return p.choice('x', [
            {'x': 1}, {'wombat': 1, 'offset': (1, 2)},
            {0.0: (1, 1, 1)}, {0.0: (1, 1, 1), 1.0: 'wombat'},
            {0.0: (1, 1, 1), 'wombat': (1, 1, 1)},
            {0.0: (1, 1, 1), 1.0: (1, 'a', 2)},
            {'offset': (1, 2), 'angle': 'wombat'},
            {'angle': 3, 'offset': (1, 2, 3)}])
    if kind == 'dictnone':
        return p.choice('x', [{None: 1}, {'x': 1, None: 2},
                              {'x': 1, '': 2}, {'x': 1, 3: 4}])
    if kind == 'dictpart':
        return {'offset': (1, 2), 'angle': Unprintable(),
                'skew_angle': 2, 'scale': (1, 2)}
    if kind == 'dictbad':
        return {'x': 1, 'y': Unprintable()}
    if kind == 'set':
        return {1, 2}
    if kind == 'object':
        return object()
    if kind == 'type':
        return p.choice('x', [int, v.Real, v.Color])
    if kind == 'unprintable':
        return Unprintable()
    if kind == 'items':
        return Items()
    if kind == 'badafter':
        return p.choice('x', [BadAfterOne('x', 1),
                              BadAfterOne('angle', 2)])
    if kind == 'other':
        o = p.choice('x', [k for k in sorted(TYPES)
                           if k not in ('Transformation', t)])
        val = value(o)
        if p.choice('anim', [False, True]):
            val.is_animated = True
        return val
    if kind == 'values':
        return values(p, t)
    if kind == 'waypoint':
        return v.Waypoint(at(3), v.Real(2.5))
    if kind == 'layer':
        return L.Circle()
    if kind == 'bytes':
        return b'wombat'
    if kind == 'huge':
        return 10**400
    if kind == 'nan':
        return p.choice('x', [float('nan'), float('inf')])
    return lambda: 3


def values(p, t):
    """
    A dict of what'd be suitable, as values or as something to make
    values from, except for one which isn't; in some order.
    """
    as_values = p.choice('as-values', [True, False])
    if t == 'Gradient':
        parts = {0.0: v.Color((0.5, 0.25, 0.75, 1.0)),
                 0.5: v.Color((1.0, 1.0, 1.0, 1.0)),
                 1.0: v.Color((0.0, 0.25, 0.5, 1.0))}
    elif t == 'X_Y':
        parts = {'x': v.Real(7.5), 'y': v.Real(8.5)}
    elif t == 'Color':
        parts = {k: v.Real(0.375) for k in 'rgba'}
    else:
        parts = {'offset': v.X_Y((7.5, 8.5)), 'angle': v.Angle(77.0),
                 'skew_angle': v.Angle(66.0), 'scale': v.X_Y((5.5, 6.5))}
    if not as_values:
        parts = {k: x.as_tuple() if hasattr(x, 'as_tuple') else x.value
                 for k, x in parts.items()}
    ks = list(parts)
    which = p.choice('which', ks)
    how = p.choice('how-bad', ['none', 'text', 'object', 'layer', 'absent',
                               'extra', 'tuple'])
    if how == 'absent':
        del parts[which]
    elif how == 'extra':
        parts['wombat'] = parts[which]
    else:
        parts[which] = {'none': None, 'text': 'wombat', 'tuple': (),
                        'object': Unprintable(), 'layer': L.Circle()}[how]
    ks = list(parts)
    if p.choice('backwards', [True, False]):
        ks.reverse()
    return {k: parts[k] for k in ks}


def run(p, cell):
    kind = cell['kind']
    if kind == 'value':
        t = cell['t']
        a, lay, f = scene(p, t, cell['n'])
        x = bad(p, t)
        before = str(a.tag)
        val = lay[f]
        way = cell['way']
        if way == 'field':
            got = p.outcome(lambda: setattr(lay, f, x))
        elif way == 'name':
            got = p.outcome(lambda: lay.__setitem__(f, x))
        elif way == 'value':
            got = p.outcome(lambda: setattr(val, 'value', x))
        else:
            when = p.choice('when', [3, 'z', '2f', 'dup'])
            if when == 'dup':
                when = T(3, ref=doc(fps='12'))
            got = p.outcome(lambda: val.timeline.__setitem__(when, x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')
            p.check(val.is_animated is (cell['n'] > 0), 'animated')
            p.check(len(val.timeline) == cell['n'], 'waypoints')
            p.check(val.tag.parent is not None, 'attached')
            right(p, lay, f, t)
        else:
            p.check(True, 'accepted')
    elif kind == 'timeline':
        timeline(p, cell)
    elif kind == 'part':
        g, a = L.Group(), sangfroid.Animation()
        a.append(g)
        part = p.choice('part', ['offset', 'angle', 'skew_angle', 'scale'])
        if p.choice('animate', [False, True]):
            g.transformation[part].is_animated = True
        x = bad(p, 'X_Y' if part in ('offset', 'scale') else 'Angle')
        before = str(a.tag)
        got = p.outcome(lambda: setattr(g, part, x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')
    elif kind == 'gradient':
        a, lay, f = scene(p, 'Gradient', 0)
        pos = p.choice('pos', [0.0, 0.5, 1.0, None, 'a', (1,)])
        x = bad(p, 'Color')
        before = str(a.tag)
        got = p.outcome(lambda: lay.gradient.__setitem__(pos, x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')
    elif kind == 'interpolation':
        w = v.Waypoint(at(3), v.Real(2.5), before='linear', after='halt')
        which = p.choice('which', ['before', 'after'])
        x = p.choice('kind', ['text', 'undefined', None, 3, 'Linear',
                              'AUTO', ' auto', 'constant ', (), []])
        if x == 'text':
            x = p.text('x', 0, 3, 'tcbo')
        was = (w.before, w.after, str(w.tag))
        got = p.outcome(lambda: setattr(w, which, x))
        if got[0] == 'raise':
            p.check((w.before, w.after, str(w.tag)) == was, 'unchanged')
            ok = isinstance(x, str) and x == 'tcb'
            p.check(not ok, 'good-refused')
        else:
            p.check(x == 'tcb', 'accepted')
    elif kind == 'attrs':
        a, lay, f = scene(p, 'Real', 0)
        n = p.choice('n', ['active', 'exclude_from_rendering', 'desc',
                           'type_', 'version', 'tag'])
        x = bad(p, 'String')
        before = str(a.tag)
        got = p.outcome(lambda: setattr(lay, n, x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')
    elif kind == 'animation':
        a, lay, f = scene(p, 'Real', 0)
        n = p.choice('n', ['width', 'xres', 'gamma_r', 'view_box', 'fps',
                           'end_time', 'desc', 'bgcolor', 'antialias',
                           'name', 'begin_time', 'size', 'framecount'])
        if p.choice('has-desc', [True, False]):
            a.desc = 'foo'
        x = bad(p, 'Time' if n == 'end_time' else 'String')
        before = str(a.tag)
        got = p.outcome(lambda: setattr(a, n, x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')
    else:
        a = sangfroid.Animation()
        g = L.Group()
        g.append(L.Circle())
        g.append(L.Text('x'))
        a.append(g)
        how = p.choice('how', ['value', 'append', 'insert', 'fieldvalue'])
        x = bad(p, 'Canvas')
        if p.choice('inlist', [True, False]):
            x = [L.Circle(), x]
        before = str(a.tag)
        if how == 'value':
            got = p.outcome(lambda: setattr(g['canvas'], 'value', x))
        elif how == 'append':
            got = p.outcome(lambda: g.append(x))
        elif how == 'insert':
            got = p.outcome(lambda: g.insert(p.choice('i', [0, 1, 7]), x))
        else:
            got = p.outcome(lambda: g.__setitem__('canvas', x))
        if got[0] == 'raise':
            p.check(str(a.tag) == before, 'unchanged')


def right(p, lay, f, t):
    """Nothing stops us from putting something right there now."""
    lay[f] = value(t)
    if t == 'Time':
        p.check(lay[f].value.frames == 7, 'right')
    elif t == 'Transformation':
        p.check(lay[f]['angle'].value == 30.0, 'right')
    else:
        p.check(lay[f] == value(t), 'right')
    p.check(not lay[f].is_animated, 'right')


def timeline(p, cell):
    t, n = cell['t'], cell['n']
    a, lay, f = scene(p, t, n)
    val = lay[f]
    other = 'Real' if t not in ('Real',) else 'Color'
    f1, f2 = p.int('f1', 0, 9), p.int('f2', 0, 9)
    good = v.Waypoint(T(f1, ref=a.tag), value(t))
    kind = p.choice('kind', ['fps', 'type', 'things', 'nolist', 'clash',
                             'undef', 'none'])
    if kind == 'fps':
        x = [good, v.Waypoint(T(f2, ref=doc(fps='12')), value(t))]
    elif kind == 'type':
        x = [good, v.Waypoint(T(f2, ref=a.tag), value(other))]
    elif kind == 'things':
        x = [good, p.choice('thing', [None, 3, 'x', value(t), []])]
    elif kind == 'nolist':
        x = p.choice('thing', [3, 'x', value(t), (good,), {3: 4},
                               Unprintable(), L.Circle()])
    elif kind == 'clash':
        x = [v.Waypoint(T(3, ref=a.tag), value(t)), good]
    elif kind == 'none':
        x = [None]
    else:
        x = None
    if kind == 'type' and p.choice('alone', [True, False]):
        x = x[1:]
    before = str(a.tag)
    how = p.choice('how', ['set', 'add', 'iadd', 'item', 'dict', 'del'])
    if how == 'set':
        got = p.outcome(lambda: setattr(val, 'timeline', x))
    elif how == 'dict':
        got = p.outcome(lambda: setattr(
            val, 'timeline', dict(enumerate(x))))
    elif how == 'add':
        got = p.outcome(lambda: val.timeline.add(x))
    elif how == 'iadd':
        got = p.outcome(lambda: val.timeline.__iadd__(x))
    elif how == 'item':
        w = x[-1] if isinstance(x, list) and x else x
        when = w.time if isinstance(w, v.Waypoint) else 5
        got = p.outcome(lambda: val.timeline.__setitem__(when, w))
    else:
        p.assume(kind == 'none')
        k = p.choice('k', [2, 'z', None, -1, 99.5])
        got = p.outcome(lambda: val.timeline.__delitem__(k))
    if got[0] == 'raise':
        p.check(str(a.tag) == before, 'unchanged')
        p.check(val.is_animated is (n > 0), 'animated')
        p.check(len(val.timeline) == n, 'waypoints')
        p.check([w.time.frames for w in val.timeline] ==
                [3, 7][:n], 'times')
        right(p, lay, f, t)
    elif kind in ('fps', 'type', 'clash'):
        # whatever was accepted can be read
        for w in val.timeline:
            p.check(type(w.value).__name__ == t or t == 'BlendMethod',
                    'readable')
