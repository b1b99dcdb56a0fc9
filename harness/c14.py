"""Setting one field of a layer changes that field and nothing else."""
import json
import os
from harness.lib import at, T
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L

BOUNDS = (
    'each of the 55 types of layer which can be made, and each of its '
    'fields; set once or twice, by attribute or by name, while animated or '
    'not, to a Python object or a value; reals and angles '
    'any multiple of 2^-10 up to +-1000, integers up to +-10^6, all blend '
    'methods, both truth values, channels multiples of 1/16, times any '
    'frame 0..9999 in frames, texts of up to 2 characters; every parameter '
    "of a group against that of a layer inside it, on either side of it")
ASSUMPTIONS = ['Real and Vector are compared to 1e-9, Color to 1e-6']
CLASSES = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Scale Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')
with open(os.path.join(os.path.dirname(__file__), 'layers.json')) as _f:
    TABLE = json.load(_f)
SKIP = ('Canvas', 'Tone')


def cells(tier):
    out = []
    for c in CLASSES.replace('Scale ', '').split():
        out.append({'kind': 'attr', 'c': c})
        out.append({'kind': 'item', 'c': c})
    for c in ['Circle', 'Text', 'Group', 'Star', 'Import']:
        out.append({'kind': 'tagattr', 'c': c})
    for c in ['Circle', 'Text', 'Linear_Gradient', 'Rotate', 'Group']:
        out.append({'kind': 'copy', 'c': c})
        out.append({'kind': 'wrong', 'c': c})
        out.append({'kind': 'unknown', 'c': c})
    for c in ['Group', 'Filter_Group', 'Switch']:
        for inner in ['first', 'last']:
            out.append({'kind': 'nested', 'c': c, 'inner': inner})
    for c in ['Circle', 'Text', 'Linear_Gradient', 'Rotate', 'Group',
              'Star']:
        out.append({'kind': 'value', 'c': c})
        out.append({'kind': 'animated', 'c': c})
    for c in ['Circle', 'Text', 'Linear_Gradient', 'Group', 'Star',
              'Rectangle', 'Timeloop', 'Checker_Board']:
        out.append({'kind': 'within', 'c': c})
    for c in ['Circle', 'Text', 'Linear_Gradient', 'Rotate', 'Timeloop']:
        out.append({'kind': 'moving', 'c': c})
    for f in ['offset', 'scale', 'angle', 'skew_angle', 'waypoint', 'X_Y', 'Color']:
        out.append({'kind': 'part', 'f': f})
    out.append({'kind': 'two'})
    out.append({'kind': 'dict'})
    return out


def fields(c):
    return [(a, n, t) for a, (n, t) in sorted(TABLE[c]['fields'].items())
            if t not in SKIP]


def make(p, t, tag=''):
    if t in ('Real', 'Angle'):
        return p.real('x' + tag, -1000, 1000, 10)
    if t == 'Integer':
        return p.int('x' + tag, -1000000, 1000000)
    if t == 'BlendMethod':
        return p.int('x' + tag, 0, 23)
    if t == 'Bool':
        return bool(p.choice('x' + tag, [True, False]))
    if t == 'String':
        return p.text('x' + tag, 1, 2, 'a<\u00e9')
    if t == 'Time':
        return at(p.int('x' + tag, 0, 9999))
    if t == 'X_Y':
        return (p.real('x' + tag, -1000, 1000, 10),
                p.real('y' + tag, -1000, 1000, 10))
    if t == 'Color':
        return (p.real('r' + tag, 0, 1, 4), p.real('g' + tag, 0, 1, 4),
                0.5, 0.25)
    if t == 'Gradient':
        return {0.0: (p.real('r' + tag, 0, 1, 4), 0.25, 0.5, 1.0),
                0.5: (0.75, 0.5, 0.25, 1.0)}
    if t == 'Transformation':
        return {'offset': (p.real('x' + tag, -1000, 1000, 10), 0.5),
                'angle': p.real('a' + tag, -1000, 1000, 10),
                'skew_angle': 0.25, 'scale': (1.5, 2.5)}
    raise ValueError(t)


def holds(p, val, t, x, label):
    p.check(not val.is_animated, label)
    if t in ('Real', 'Angle'):
        p.check(p.close(val.value, x, 1e-9), label)
        p.check(p.close(float(val), x, 1e-9), label)
    elif t in ('Integer', 'BlendMethod'):
        p.check(int(val) == x, label)
        p.check(val == x, label)
    elif t in ('Bool', 'String'):
        p.check(val.value == x, label)
        p.check(val == x, label)
    elif t == 'Time':
        p.check(val.value.frames == x.frames, label)
    elif t == 'X_Y':
        p.check(p.close(val.x, x[0], 1e-9) & p.close(val.y, x[1], 1e-9),
                label)
    elif t == 'Color':
        got = val.as_tuple()
        p.check(len(got) == len(x), label)
        for a, b in zip(got, x):
            p.check(p.close(a, b, 1e-6), label)
    elif t == 'Gradient':
        got = list(val.items())
        p.check(len(got) == len(x), label)
        for (a, b), (c, d) in zip(got, x.items()):
            p.check(p.close(a, c, 1e-9), label)
            for e, f in zip(b.as_tuple(), d):
                p.check(p.close(e, f, 1e-6), label)
    else:
        p.check(p.close(val['angle'].value, x['angle'], 1e-9), label)
        p.check(p.close(val['skew_angle'].value, 0.25, 1e-9), label)
        p.check(p.close(val['offset'].x, x['offset'][0], 1e-9), label)
        p.check(p.close(val['offset'].y, 0.5, 1e-9), label)
        p.check(p.close(val['scale'].x, 1.5, 1e-9), label)
        p.check(p.close(val['scale'].y, 2.5, 1e-9), label)


def scene(c):
    """A layer of class c, among others."""
    a = sangfroid.Animation()
    a.append(L.Circle())
    a.append(getattr(L, c)())
    lay = getattr(L, c)()
    lay.desc = 'the one'
    a.append(lay)
    a.append(L.Text('wombat'))
    return a, lay


def snapshot(a, lay, name):
    """All there is but one parameter; with the names of all of them."""
    out = [sorted(a.tag.attrs.items())]
    for c in a.tag.contents:
        if c is lay.tag or c.name is None:
            continue
        out.append(str(c))
    out.append(sorted((k, str(x)) for k, x in lay.tag.attrs.items()))
    for c in lay.tag.contents:
        if c.name is None:
            continue
        if c.name == 'param':
            out.append(str(c['name']))
            if c['name'] == name:
                out.append(len([x for x in c.contents
                                if x.name is not None]))
                continue
        out.append(str(c))
    out.append(list(lay.keys()))
    return out


def run(p, cell):
    kind = cell['kind']
    if kind in ('attr', 'item'):
        a, lay = scene(cell['c'])
        fs = fields(cell['c'])
        f, name, t = p.choice('field', fs)
        before = snapshot(a, lay, name)
        x = make(p, t)
        p.check(name in lay, 'in')
        if kind == 'attr':
            setattr(lay, f, x)
        else:
            lay[name] = x
        holds(p, getattr(lay, f), t, x, 'by-attribute')
        holds(p, lay[name], t, x, 'by-name')
        p.check(snapshot(a, lay, name) == before, 'nothing-else')
        if t in ('Real', 'Integer', 'Color', 'X_Y'):
            y = make(p, t, '2')
            if kind == 'attr':
                lay[name] = y
            else:
                setattr(lay, f, y)
            holds(p, getattr(lay, f), t, y, 'again-by-attribute')
            holds(p, lay[name], t, y, 'again-by-name')
            p.check(snapshot(a, lay, name) == before, 'again-nothing-else')
    elif kind == 'tagattr':
        tagattr(p, cell)
    elif kind == 'within':
        within(p, cell)
    elif kind == 'moving':
        moving(p, cell)
    elif kind == 'copy':
        copying(p, cell)
    elif kind == 'wrong':
        a, lay = scene(cell['c'])
        f, name, t = p.choice('field', fields(cell['c']))
        before = str(a.tag)
        other = p.choice('o', [x for x in ['Real', 'Bool', 'Color', 'String']
                               if x != t])
        val = {'Real': v.Real(2.5), 'Bool': v.Bool(True),
               'Color': v.Color((0.5, 0.25, 0.75, 1.0)),
               'String': v.String('wombat')}[other]
        p.check(p.raises(lambda: lay.__setitem__(name, val), TypeError)
                is not None, 'wrong-type')
        p.check(str(a.tag) == before, 'wrong-type-unchanged')
    elif kind == 'unknown':
        a, lay = scene(cell['c'])
        before = str(a.tag)
        word = p.text('w', 0, 3, 'qz_')
        p.check(p.raises(lambda: lay[word], KeyError) is not None,
                'unknown-get')
        p.check(p.raises(lambda: lay.__setitem__(word, 3), KeyError)
                is not None, 'unknown-set')
        p.check(word not in lay, 'unknown-in')
        p.check(str(a.tag) == before, 'unknown-unchanged')
    elif kind == 'value':
        # given as a value which belongs to nobody
        a, lay = scene(cell['c'])
        f, name, t = p.choice('field', fields(cell['c']))
        before = snapshot(a, lay, name)
        x = make(p, t)
        val = getattr(v, t)(x)
        if p.choice('attr', [True, False]):
            setattr(lay, f, val)
        else:
            lay[name] = val
        holds(p, getattr(lay, f), t, x, 'value-by-attribute')
        holds(p, lay[name], t, x, 'value-by-name')
        p.check(snapshot(a, lay, name) == before, 'value-nothing-else')
    elif kind == 'animated':
        # set while it was animated
        a, lay = scene(cell['c'])
        f, name, t = p.choice('field', [
            x for x in fields(cell['c'])
            if x[2] not in ('Transformation', 'BlendMethod')])
        before = snapshot(a, lay, name)
        x, y, z = make(p, t), make(p, t, '2'), make(p, t, '3')
        setattr(lay, f, x)
        getattr(lay, f).is_animated = True
        getattr(lay, f).timeline[20] = getattr(v, t)(y)
        p.check(lay[name].is_animated, 'animated')
        p.check(len(lay[name].timeline) == 2, 'animated')
        p.check(snapshot(a, lay, name) == before, 'animated-nothing-else')
        if p.choice('attr', [True, False]):
            setattr(lay, f, z)
        else:
            lay[name] = z
        holds(p, getattr(lay, f), t, z, 'animated-by-attribute')
        holds(p, lay[name], t, z, 'animated-by-name')
        p.check(snapshot(a, lay, name) == before, 'animated-nothing-else')
    elif kind == 'nested':
        nested(p, cell)
    elif kind == 'part':
        part(p, cell)
    elif kind == 'two':
        # two fields, in either order
        a, lay = scene('Circle')
        fs = [('radius', 'Real'), ('color', 'Color'), ('invert', 'Bool'),
              ('origin', 'X_Y'), ('blend_method', 'BlendMethod')]
        f, ft = p.choice('f1', fs)
        g, gt = p.choice('f2', fs)
        x = make(p, ft)
        y = make(p, gt, '2')
        setattr(lay, f, x)
        setattr(lay, g, y)
        if f != g:
            holds(p, getattr(lay, f), ft, x, 'two-first')
        holds(p, getattr(lay, g), gt, y, 'two-second')
    else:
        # a layer as a mapping of names to values
        lay = L.Circle()
        x = make(p, 'Real')
        lay.radius = x
        names = [n for _, n, _ in fields('Circle')]
        p.check(sorted(lay.keys()) == sorted(names), 'keys')
        p.check(len(list(lay.values())) == len(names), 'values')
        d = dict(lay.items())
        p.check(sorted(d) == sorted(names), 'items')
        holds(p, d['radius'], 'Real', x, 'items-value')
        d['radius'].value = x + 1
        holds(p, lay.radius, 'Real', x + 1, 'items-are-live')


def tagattr(p, cell):
    a, lay = scene(cell['c'])
    others = [str(c.tag) for c in a.children if c.tag is not lay.tag]
    params = [str(c) for c in lay.tag.contents]
    attrs = dict(lay.tag.attrs)
    which = p.choice('which', ['active', 'exclude_from_rendering', 'desc',
                               'none'])
    if which == 'desc':
        x = p.text('x', 0, 3, 'a<"&\' \u00e9')
        lay.desc = x
        p.check(lay.desc == x, 'desc')
        p.check(lay.desc is not None, 'desc')
    elif which == 'none':
        lay.desc = None
        p.check(lay.desc is None, 'no-desc')
        lay.desc = None
        p.check(lay.desc is None, 'no-desc-twice')
        which = 'desc'
    else:
        x = p.choice('x', [True, False, 1, 0])
        setattr(lay, which, x)
        p.check(getattr(lay, which) is bool(x), which)
        p.check(lay.tag[which] == ('true' if x else 'false'),
                which + '-stored')
    for k in ('active', 'exclude_from_rendering', 'desc', 'type', 'version'):
        if k != which:
            p.check(lay.tag.get(k) == attrs.get(k), 'other-attributes')
    p.check([str(c) for c in lay.tag.contents] == params, 'params')
    p.check([str(c.tag) for c in a.children if c.tag is not lay.tag] ==
            others, 'other-layers')
    p.check(p.raises(lambda: setattr(lay, 'type_', 'wombat'), ValueError)
            is not None, 'type-fixed')
    p.check(p.raises(lambda: setattr(lay, 'tag', lay.tag), KeyError)
            is not None, 'tag-fixed')


def copying(p, cell):
    """A value which another layer has already."""
    c = cell['c']
    a, lay = scene(c)
    src = getattr(L, c)()
    where = p.choice('where', ['doc', 'alone'])
    if where == 'doc':
        a.append(src)
    f, name, t = p.choice('field', fields(c))
    x = make(p, t)
    setattr(src, f, x)
    before = snapshot(a, lay, name)
    if p.choice('attr', [True, False]):
        setattr(lay, f, getattr(src, f))
    else:
        lay[name] = src[name]
    holds(p, lay[name], t, x, 'copied')
    holds(p, getattr(src, f), t, x, 'source-kept')
    p.check(snapshot(a, lay, name) == before, 'copy-nothing-else')
    y = make(p, t, '2')
    setattr(lay, f, y)
    holds(p, lay[name], t, y, 'copy-changed')
    holds(p, src[name], t, x, 'source-independent')
    z = make(p, t, '3') if t != 'String' else 'zz'
    lay[name] = src[name]
    setattr(src, f, z)
    holds(p, lay[name], t, x, 'copy-independent')
    holds(p, src[name], t, z, 'source-changed')


PARTS = {'offset': ('Circle', 'origin', 'origin', 'X_Y'),
         'scale': ('Rectangle', 'point1', 'point1', 'X_Y'),
         'angle': ('Rotate', 'amount', 'amount', 'Angle'),
         'skew_angle': ('Rotate', 'amount', 'amount', 'Angle'),
         'waypoint': ('Circle', 'radius', 'radius', 'Real'),
         'X_Y': ('Circle', 'origin', 'origin', 'X_Y'),
         'Color': ('Circle', 'color', 'color', 'Color')}


def part(p, cell):
    """A value which is a part of another, or belongs to a waypoint."""
    c, f, name, t = PARTS[cell['f']]
    a, lay = scene(c)
    x, y = make(p, t), make(p, t, '2')
    if cell['f'] in ('offset', 'scale', 'angle', 'skew_angle'):
        g = L.Group()
        g.transformation = {cell['f']: x}
        owner = g.transformation.tag

        def source():
            return getattr(g.transformation, cell['f'])
    else:
        src = getattr(L, c)()
        src[name].timeline[3] = getattr(v, t)(x)
        src[name].timeline[9] = getattr(v, t)(y)
        owner = src[name].tag

        def source():
            return src[name].timeline[3].value
    if p.choice('doc', [True, False]):
        a.append(g if cell['f'] in ('offset', 'scale', 'angle', 'skew_angle')
                 else src)
    before, was = snapshot(a, lay, name), str(owner)
    if p.choice('attr', [True, False]):
        setattr(lay, f, source())
    else:
        lay[name] = source()
    holds(p, lay[name], t, x, 'part')
    holds(p, getattr(lay, f), t, x, 'part')
    holds(p, source(), t, x, 'part-kept')
    p.check(str(owner) == was, 'part-owner')
    p.check(snapshot(a, lay, name) == before, 'part-nothing-else')
    setattr(lay, f, y)
    holds(p, source(), t, x, 'part-independent')
    p.check(str(owner) == was, 'part-owner')


def nested(p, cell):
    a = sangfroid.Animation()
    g = getattr(L, cell['c'])()
    a.append(g)
    f, name, t = p.choice('field', [
        x for x in fields(cell['c'])
        if x[0] in TABLE['Group']['fields']])
    inner = L.Group()
    canvas = g.tag.find('param', attrs={'name': 'canvas'}, recursive=False)
    if canvas is None:
        # anything inside it will do
        g.tag.append(inner.tag)
    else:
        if cell['inner'] == 'first':
            g.tag.insert(0, canvas.extract())
        else:
            g.tag.append(canvas.extract())
        canvas.find('canvas').append(inner.tag)
    was = str(inner.tag)
    x = make(p, t)
    setattr(g, f, x)
    p.check(str(inner.tag) == was, 'inner-unchanged')
    holds(p, getattr(g, f), t, x, 'outer')
    holds(p, g[name], t, x, 'outer-by-name')
    y = make(p, t, '2')
    inner[name] = y
    holds(p, g[name], t, x, 'outer-kept')
    holds(p, getattr(g, f), t, x, 'outer-kept')
    holds(p, inner[name], t, y, 'inner')
    z = make(p, t, '3')
    g[name] = z
    holds(p, inner[name], t, y, 'inner-kept')
    holds(p, getattr(g, f), t, z, 'outer-by-name')


def within(p, cell):
    """A value of one field given to another of the same layer."""
    a, lay = scene(cell['c'])
    by = {}
    for x in fields(cell['c']):
        by.setdefault(x[2], []).append(x)
    pairs = []
    for t, xs in sorted(by.items()):
        if len(xs) > 1:
            pairs += [(xs[0], xs[1]), (xs[-1], xs[0])]
    one, two = p.choice('pair', pairs)
    t = one[2]
    x = make(p, t)
    setattr(lay, one[0], x)
    keys = list(lay.keys())
    if p.choice('attr', [True, False]):
        setattr(lay, two[0], getattr(lay, one[0]))
    else:
        lay[two[1]] = lay[one[1]]
    for f in (one, two):
        holds(p, getattr(lay, f[0]), t, x, 'within')
        holds(p, lay[f[1]], t, x, 'within')
    p.check(list(lay.keys()) == keys, 'within-keys')
    y = make(p, t, '2')
    setattr(lay, two[0], y)
    holds(p, getattr(lay, two[0]), t, y, 'within-changed')
    holds(p, getattr(lay, one[0]), t, x, 'within-independent')
    # to itself
    lay[one[1]] = lay[one[1]]
    holds(p, getattr(lay, one[0]), t, x, 'itself')
    p.check(list(lay.keys()) == keys, 'within-keys')


def moving(p, cell):
    """An animated value given to another layer."""
    c = cell['c']
    a, lay = scene(c)
    src = getattr(L, c)()
    if p.choice('where', [True, False]):
        a.append(src)
    kinds = {}
    for x in fields(c):
        if x[2] not in ('Transformation', 'BlendMethod'):
            kinds[x[2]] = x
    f, name, t = p.choice('field', list(kinds.values()))
    x, y = make(p, t), make(p, t, '2')
    n = p.int('n', 1, 99)
    setattr(src, f, x)
    getattr(src, f).is_animated = True
    getattr(src, f).timeline[n] = getattr(v, t)(y)
    before = snapshot(a, lay, name)
    source = str(src.tag)
    lay[name] = src[name]
    p.check(snapshot(a, lay, name) == before, 'moving-nothing-else')
    p.check(str(src.tag) == source, 'moving-source')
    for r in (lay, src):
        val = getattr(r, f)
        p.check(val.is_animated, 'moving')
        ws = list(val.timeline)
        p.check([w.time.frames for w in ws] == [0, n], 'moving-times')
        holds(p, ws[0].value, t, x, 'moving-first')
        holds(p, ws[1].value, t, y, 'moving-second')
    getattr(lay, f).timeline[n + 1] = getattr(v, t)(x)
    p.check(str(src.tag) == source, 'moving-independent')

