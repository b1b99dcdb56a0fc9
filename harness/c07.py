"""Vectors and transformations, and the shortcuts to their parts."""
from harness.lib import reload, soup_of, warm
import sangfroid
import sangfroid.value as v

BOUNDS = ('coordinates and angles: every multiple of 2^-20 up to +-4000 (and '
          'ints up to 10^6); four sequences of assignment to the parts of a '
          "group's transformation, every order of two parts")
ASSUMPTIONS = ['coordinates are stored with ten decimals: compared to 1e-9']

PARTS = ['offset', 'angle', 'skew_angle', 'scale']


def cells(tier):
    out = []
    for how in ['new', 'args', 'assign', 'dict', 'vector', 'animated',
                'field', 'item', 'backwards', 'file', 'twice']:
        out.append({'kind': 'vector', 'how': how})
    for how in ['new', 'args', 'assign']:
        out.append({'kind': 'ints', 'how': how})
    out.append({'kind': 'size'})
    out.append({'kind': 'edge'})
    out.append({'kind': 'eq'})
    for how in ['new', 'assign', 'field', 'copy']:
        out.append({'kind': 'trans', 'how': how})
    for a in PARTS:
        out.append({'kind': 'part', 'a': a})
        for b in PARTS:
            if a != b:
                out.append({'kind': 'two', 'a': a, 'b': b})
    out.append({'kind': 'badkey'})
    for a in PARTS:
        out.append({'kind': 'transeq', 'a': a})
    out.append({'kind': 'absent'})
    return out


def num(p, name):
    return p.real(name, -4000, 4000, 20)


def near(p, a, b):
    return p.close(a, b, 1e-9)


def check_vector(p, r, x, y, label):
    p.check(isinstance(r, v.Vector), label + '-type')
    p.check(near(p, r.x, x) & near(p, r.y, y), label + '-attributes')
    p.check(near(p, r['x'], x) & near(p, r['y'], y), label + '-items')
    p.check(near(p, r[0], x) & near(p, r[1], y), label + '-indices')
    t = r.as_tuple()
    p.check(len(t) == 2, label + '-length')
    p.check(near(p, t[0], x) & near(p, t[1], y), label + '-tuple')
    n = list(r)
    p.check(len(n) == 2, label + '-length')
    p.check(near(p, n[0], x) & near(p, n[1], y), label + '-iteration')
    p.check(len(r) == 2, label + '-length')
    p.check(r.keys() == ['x', 'y'], label + '-keys')


def run(p, cell):
    kind = cell['kind']
    if kind == 'vector':
        x, y = num(p, 'x'), num(p, 'y')
        how = cell['how']
        if how == 'new':
            r = v.X_Y((x, y))
        elif how == 'args':
            r = v.X_Y(x, y)
        elif how == 'field':
            c = sangfroid.layer.Circle()
            warm(c.origin)
            c.origin = (x, y)
            r = c.origin
            p.check(near(p, c['origin'].x, x), 'field-by-name')
        elif how == 'item':
            c = sangfroid.layer.Circle()
            warm(c['origin'])
            c['origin'] = (x, y)
            r = c.origin
        elif how == 'twice':
            # two objects for the same vector
            c = sangfroid.layer.Circle()
            s, r = c.origin, c.origin
            warm(s, r)
            s.value = (x, y)
            warm(s, r)
        elif how == 'backwards':
            r = v.X_Y({'y': y, 'x': x})
            p.check(r == v.X_Y(x, y), 'same-in-either-order')
            p.check(v.X_Y(x, y) == r, 'same-in-either-order')
        elif how == 'file':
            s = v.X_Y(x, y).tag
            xs, ys = str(s.x.string), str(s.y.string)
            text = p.choice('order', [
                f'<y>{ys}</y><x>{xs}</x>', f'<x>{xs}</x><y>{ys}</y>',
                f'\n <y>{ys}</y>\n <x>{xs}</x>\n'])
            r = v.Value.from_tag(
                soup_of(f'<vector>{text}</vector>').find('vector'))
        else:
            r = warm(v.X_Y(1.5, -2.5))
            if how == 'assign':
                r.value = (x, y)
            elif how == 'dict':
                r.value = {'x': x, 'y': y}
            elif how == 'vector':
                r.value = v.X_Y(x, y)
            else:
                r.is_animated = True
                warm(r)
                r.value = (x, y)
                p.check(not r.is_animated, 'assigning-ends-animation')
        p.observe('tuple', r.as_tuple())
        check_vector(p, r, x, y, 'read')
        check_vector(p, reload(r), x, y, 'reload')
    elif kind == 'ints':
        x = p.int('x', -10**6, 10**6)
        y = p.int('y', -10**6, 10**6)
        if cell['how'] == 'new':
            r = v.X_Y((x, y))
        elif cell['how'] == 'args':
            r = v.X_Y(x, y)
        else:
            r = v.X_Y(1.5, 2.5)
            r.value = (x, y)
        check_vector(p, r, x, y, 'read')
        check_vector(p, reload(r), x, y, 'reload')
    elif kind == 'edge':
        xs = [1e9, -1e9, 1e15, 123456789.125, 1e-5, -1e-5, 0.1, 1 / 3, 1e5,
              -0.5, 100.0, 2**53 - 1, 10**12]
        x, y = p.choice('x', xs), p.choice('y', xs)
        how = p.choice('how', ['new', 'dict', 'field'])
        if how == 'new':
            r = v.X_Y(x, y)
        elif how == 'dict':
            r = v.X_Y({'y': y, 'x': x})
        else:
            c = sangfroid.layer.Circle()
            c.origin = (x, y)
            r = c.origin
        check_vector(p, r, x, y, 'edge')
        check_vector(p, reload(r), x, y, 'edge-reload')
        p.check(not (r == v.X_Y(x, y + 1)), 'edge-equal')
        p.check(not (r == v.X_Y(x + 1, y)), 'edge-equal')
    elif kind == 'size':
        x = num(p, 'x')
        n = p.choice('n', [1, 3, 4])
        bad = p.choice('bad', ['tuple', 'str', 'mixed', 'number', 'list'])
        r = v.X_Y(1.5, -2.5)
        val = {'tuple': (x,) * n, 'str': 'wombat', 'mixed': (x, 'y'),
               'number': x, 'list': [x, x]}[bad]
        before = str(r.tag)
        p.check(p.raises(lambda: setattr(r, 'value', val), TypeError)
                is not None, 'rejected')
        p.check(str(r.tag) == before, 'rejected-unchanged')
    elif kind == 'eq':
        x, y, z = num(p, 'x'), num(p, 'y'), num(p, 'z')
        a, b = v.X_Y(x, y), v.X_Y(z, y)
        if x == z:
            p.check(a == b, 'equal')
        else:
            p.check(not (a == b), 'unequal')
            p.check(not (v.X_Y(y, x) == v.X_Y(y, z)), 'unequal')
            p.check(a != b, 'differs')
            p.check(not (v.X_Y(x, z) == v.X_Y(z, x)), 'swapped')
            p.check(not (v.X_Y(x, z) == (z, x)), 'swapped')
            p.check(v.X_Y(x, z) != v.X_Y(z, x), 'swapped-differs')
            p.check(not (v.X_Y(x, x) == v.X_Y(x, z)), 'same-twice')
        p.check(a == a.as_tuple(), 'equals-its-tuple')
        p.check(not (a == (x, y, z)), 'unequal-length')
    elif kind == 'trans':
        vals = {'offset': (num(p, 'ox'), num(p, 'oy')),
                'angle': num(p, 'an'),
                'skew_angle': num(p, 'sk'),
                'scale': (num(p, 'sx'), num(p, 'sy'))}
        how = cell['how']
        if how == 'new':
            t = v.Transformation(vals)
        elif how == 'field':
            g = sangfroid.layer.Group()
            warm(g.transformation)
            g.transformation = vals
            t = g.transformation
            check_part(p, g.offset, vals['offset'], 'shortcut')
            check_part(p, g.angle, vals['angle'], 'shortcut')
            check_part(p, g.skew_angle, vals['skew_angle'], 'shortcut')
            check_part(p, g.scale, vals['scale'], 'shortcut')
        elif how == 'assign':
            t = start()
            t.value = vals
        else:
            t = start()
            t.value = v.Transformation(vals)
        check_trans(p, t, vals, 'read')
        check_trans(p, reload(t), vals, 'reload')
    elif kind in ('part', 'two'):
        g = sangfroid.layer.Group()
        want = {'offset': (0.0, 0.0), 'angle': 0.0, 'skew_angle': 0.0,
                'scale': (1.0, 1.0)}
        held = g.transformation
        parts = [getattr(g, k) for k in PARTS]
        warm(held, *parts)
        for i, name in enumerate([cell['a']] +
                                 ([cell['b']] if kind == 'two' else [])):
            if name in ('offset', 'scale'):
                x = (num(p, f'x{i}'), num(p, f'y{i}'))
            else:
                x = num(p, f'x{i}')
            way = p.choice(f'way{i}', ['shortcut', 'dict', 'part'])
            if way == 'shortcut':
                setattr(g, name, x)
            elif way == 'dict':
                g.transformation = {name: x}
            else:
                g.transformation[name].value = x
            want[name] = x
            check_trans(p, g.transformation, want, 'parts')
            check_trans(p, held, want, 'held')
            for k in PARTS:
                check_part(p, getattr(g, k), want[k], 'shortcut')
        check_trans(p, reload(g.transformation), want, 'reload')
    elif kind == 'transeq':
        transeq(p, cell['a'])
    elif kind == 'absent':
        t = start()
        name = p.choice('name', ['wombat', 'Angle', 'x', ''])
        p.check(p.raises(lambda: t[name], KeyError) is not None, 'absent')
        p.check(p.raises(lambda: getattr(t, name), AttributeError)
                is not None, 'absent')
        p.check(t.get(name) is None, 'absent')
        p.check(t.get(name, 3) == 3, 'absent')
        p.check(t.get('angle', 3).value == 7.0, 'present')
    else:
        x = num(p, 'x')
        g = sangfroid.layer.Group()
        before = str(g.tag)
        bad = p.choice('bad', [0, 1, 2, 3])
        val = [{'wombat': x}, {'angle': x, 'wombat': 1.0}, x, 'wombat'][bad]
        p.check(p.raises(lambda: setattr(g, 'transformation', val),
                         KeyError, TypeError) is not None, 'rejected')
        p.check(str(g.tag) == before, 'rejected-unchanged')


def transeq(p, part):
    """Transformations are equal exactly when each part is."""
    x, y = p.real('x', -4000, 4000, 3), p.real('y', -4000, 4000, 3)
    a, b = start(), start()
    pair = part in ('offset', 'scale')
    which = p.choice('which', [0, 1]) if pair else 0

    def whole(n):
        if not pair:
            return n
        return (n, 1.5) if which == 0 else (1.5, n)

    a.value = {part: whole(x)}
    b.value = {part: whole(y)}
    da, db = dict(a.items()), dict(b.items())
    p.check(sorted(da) == sorted(PARTS), 'items')
    if x == y:
        p.check(a == b, 'equal')
        p.check(a == db, 'equal-dict')
        p.check(not (a != b), 'equal')
    else:
        p.check(not (a == b), 'unequal')
        p.check(not (b == a), 'unequal')
        p.check(not (a == db), 'unequal-dict')
        p.check(a != b, 'unequal')
    p.check(a == da, 'equal-dict')
    for k in PARTS:
        less = dict(da)
        del less[k]
        p.check(not (a == less), 'fewer')
        less['wombat'] = 1.0
        p.check(not (a == less), 'other-keys')
    p.check(not (a == 7.0), 'number')
    p.check(not (a == 'wombat'), 'text')
    p.check(not (a == None), 'none')  # noqa


def start():
    return warm(v.Transformation({'offset': (9.0, 8.0), 'angle': 7.0,
                                  'skew_angle': 6.0, 'scale': (5.0, 4.0)}))


def check_part(p, got, want, label):
    if isinstance(want, tuple):
        p.check(near(p, got.x, want[0]) & near(p, got.y, want[1]),
                label + '-vector')
    else:
        p.check(near(p, got.value, want), label + '-angle')


def check_trans(p, t, want, label):
    p.check(isinstance(t, v.Transformation), label + '-type')
    p.check(sorted(t.keys()) == sorted(PARTS), label + '-keys')
    p.check(len(t) == 4, label + '-length')
    for k in PARTS:
        check_part(p, t[k], want[k], label + '-item')
        check_part(p, t.value[k], want[k], label + '-value')
        check_part(p, getattr(t, k), want[k], label + '-attribute')
