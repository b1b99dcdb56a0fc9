"""New layers."""
import json
import os
from harness.lib import at, soup_of, T
from harness.c14 import fields, make, holds, TABLE
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L

BOUNDS = (
    'each of the 55 types of layer which can be made, all parameters; any '
    'one field of one of two layers changed, to any value (as for C14); '
    'into a group and saved and loaded in both formats')
ASSUMPTIONS = ['the defaults are those of layers.json: what the classes '
               'declare, checked against the files Synfig writes by the '
               "repository's tests"]
CLASSES = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Scale Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')


def cells(tier):
    out = []
    for c in CLASSES.split():
        out.append({'kind': 'new', 'c': c})
        if c != 'Scale':
            out.append({'kind': 'apart', 'c': c})
        out.append({'kind': 'save', 'c': c})
    out.append({'kind': 'text'})
    return out


def contents(val):
    """What a value holds, as plain data."""
    if val.is_animated:
        return ('animated', [(w.time.frames, contents(w.value), w.before,
                              w.after) for w in val.timeline])
    if isinstance(val, v.Color):
        return ('color', tuple(round(x, 6) for x in val.as_tuple()))
    if isinstance(val, v.Gradient):
        return ('gradient', [(k, contents(x)) for k, x in val.items()])
    if isinstance(val, v.Composite):
        return ('composite', sorted((k, contents(x))
                                    for k, x in val.items()))
    if isinstance(val, v.Vector):
        return ('vector', tuple(round(x, 9) for x in val.as_tuple()))
    if isinstance(val, v.Time):
        return ('time', str(val.tag['value']))
    if isinstance(val, v.Canvas):
        return ('canvas', len(val.value))
    x = val.value
    if isinstance(x, float):
        x = round(x, 9)
    return (type(x).__name__, x)


def default(xml):
    return contents(v.Value.from_tag(
        soup_of('<r>' + xml + '</r>').r.find(recursive=False)))


def complete(p, lay, c, label):
    d = TABLE[c]
    p.check(type(lay) is getattr(L, c), label + '-class')
    p.check(lay.tag.name == 'layer', label + '-tag')
    p.check(lay.tag['type'] == d['type'], label + '-type')
    p.check(float(lay.tag['version']) == float(d['version']),
            label + '-version')
    p.check(lay.active is True, label + '-active')
    p.check(lay.exclude_from_rendering is False, label + '-rendered')
    p.check(lay.desc is None, label + '-desc')
    names = [str(t['name']) for t in
             lay.tag.find_all('param', recursive=False)]
    p.check(sorted(names) == sorted(d['params']), label + '-params')
    for name, xml in d['params'].items():
        p.check(name in lay, label + '-has')
        p.check(contents(lay[name]) == default(xml), label + '-default')
    for attr, (name, t) in d['fields'].items():
        val = getattr(lay, attr)
        p.check(contents(val) == default(d['params'][name]),
                label + '-attribute')
        p.check(isinstance(val, getattr(v, t)), label + '-attribute-type')


def run(p, cell):
    kind = cell['kind']
    if kind == 'new':
        c = cell['c']
        a = sangfroid.Animation()
        n = p.choice('n', [0, 1, 2])
        for _ in range(n):
            getattr(L, c)()
        lay = getattr(L, c)()
        complete(p, lay, c, 'alone')
        a.append(lay)
        complete(p, a[0], c, 'attached')
    elif kind == 'apart':
        c = cell['c']
        a = sangfroid.Animation()
        x, y = getattr(L, c)(), getattr(L, c)()
        if p.choice('where', [True, False]):
            a.append(x)
            a.append(y)
        f, name, t = p.choice('field', fields(c))
        before = str(y.tag)
        val = make(p, t)
        setattr(x, f, val)
        holds(p, getattr(x, f), t, val, 'changed')
        p.check(str(y.tag) == before, 'apart')
        if t != 'Transformation':
            x[name].is_animated = True
            p.check(str(y.tag) == before, 'apart-animated')
        complete(p, y, c, 'other')
        complete(p, getattr(L, c)(), c, 'later')
    elif kind == 'save':
        c = cell['c']
        a = sangfroid.Animation()
        g = L.Group()
        a.append(g)
        inside = p.choice('inside', [True, False])
        (g if inside else a).append(getattr(L, c)())
        ext = p.choice('ext', ['sif', 'sifz'])
        name = os.path.join(p.tmpdir(), 'x.' + ext)
        a.save(name)
        b = sangfroid.Animation(name)
        got = b.find('group')[0] if inside else b[1]
        complete(p, got, c, 'loaded')
    else:
        s = p.text('s', 0, 3, 'a &\u00e9')
        t = L.Text(s)
        p.check(t.text.value == s, 'text')
        p.check(t.desc is None, 'text-desc')
        complete(p, L.Text(), 'Text', 'later')
        t = soup_of('<layer type="text"/>')
        p.check(L.Text(t).tag is t.find(), 'from-soup')
        p.check(L.Text(t.find()).tag is t.find(), 'from-tag')
        bad = p.choice('bad', [3, [], {}, 2.5])
        p.check(p.raises(lambda: L.Circle(bad), TypeError) is not None,
                'bad-tag')
