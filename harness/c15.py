"""The class for a type of layer or value, by name."""
import json
import os
from harness.lib import soup_of
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L
from sangfroid.registry import Registry

BOUNDS = (
    'each of the 56 types of layer and 17 of value: every mixture of upper '
    'and lower case (all letters at once), with the underscores left out '
    'and one added anywhere; every name with one letter replaced; new '
    'registries with names of up to 3 letters over a, A, b, _')
ASSUMPTIONS = []
CLASSES = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Halftone3 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Scale Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')
VALUES = ('Real Integer Bool Angle Time Canvas Color Vector Gradient String '
          'Dynamic_List Static_List Wplist Dilist Bline Tone Composite')


def cells(tier):
    out = []
    for c in CLASSES.split():
        out.append({'kind': 'layer', 'c': c})
    for c in VALUES.split():
        out.append({'kind': 'value', 'c': c})
    for n in (1, 2, 3):
        out.append({'kind': 'registry', 'n': n})
    out.append({'kind': 'missing'})
    out.append({'kind': 'animated'})
    out.append({'kind': 'composite'})
    out.append({'kind': 'distinct'})
    return out


def spelt(p, name, lower=False):
    """Any way of writing a name."""
    i = p.choice('extra', [None] + list(range(0, len(name) + 1, 3)))
    keep = p.choice('keep', [True, False])
    out = ''
    for j, c in enumerate(name):
        if i == j:
            out += '_'
        if c == '_':
            if keep:
                out += '_'
        elif c.lower() != c.upper():
            out += p.char(f'c{j}', c.lower() + c.upper())
        else:
            out += c
    return out


def run(p, cell):
    kind = cell['kind']
    if kind == 'layer':
        layer(p, cell['c'])
    elif kind == 'value':
        value(p, cell['c'])
    elif kind == 'registry':
        r = Registry()
        n = cell['n']
        a = p.text('a', n, n, 'abA_')
        b = p.text('b', n, n, 'abA_')

        class One:
            pass

        class Two:
            pass
        p.check(r(a)(One) is One, 'decorator')
        p.check(r(b)(Two) is Two, 'decorator')
        same = norm(a) == norm(b)
        p.check(r.from_name(b) is Two, 'second')
        p.check(r.from_name(a) is (Two if same else One), 'first')
        x = p.text('x', n, n, 'abB_')
        k = norm(x)
        got = p.outcome(lambda: r.from_name(x))
        if k == norm(b):
            p.check(got[0] == 'ok' and got[1] is Two, 'found')
        elif k == norm(a):
            p.check(got[0] == 'ok' and got[1] is One, 'found')
        else:
            p.check(got[0] == 'raise' and isinstance(got[1], KeyError),
                    'absent')
        r()(Two)
        p.check(r.from_name('tWO') is Two, 'own-name')
        p.check(r.from_name('t_w_o') is Two, 'own-name')
    elif kind == 'missing':
        x = p.text('x', 0, 3, 'qzQ_1 -')
        p.check(p.raises(lambda: L.Layer.handles_type.from_name(x),
                         KeyError) is not None, 'no-layer')
        p.check(p.raises(lambda: v.Value.handles_type.from_name(x),
                         KeyError) is not None, 'no-value')
        tag = soup_of('<layer/>').layer
        tag['type'] = x
        p.check(p.raises(lambda: L.Layer.from_tag(tag), KeyError)
                is not None, 'no-layer')
        tag = soup_of('<animated/>').animated
        tag['type'] = x
        p.check(p.raises(lambda: v.Value.from_tag(tag), KeyError)
                is not None, 'no-value')
    elif kind == 'composite':
        good = v.Transformation({'offset': (1.0, 2.0), 'angle': 3.0,
                                 'skew_angle': 4.0, 'scale': (5.0, 6.0)}).tag
        p.check(good.name == 'composite', 'composite-tag')
        p.check(type(v.Value.from_tag(good)) is v.Transformation,
                'composite')
        x = ''
        for j, c in enumerate('transformation'):
            x += p.char(f'c{j}', c + c.upper())
        good['type'] = x
        p.check(type(v.Value.from_tag(good)) is v.Transformation,
                'composite-case')
        x = p.text('x', 0, 3, 'qzQ_1 -')
        good['type'] = x
        p.check(p.raises(lambda: v.Value.from_tag(good), KeyError)
                is not None, 'composite-unknown')
        del good['type']
        p.check(p.raises(lambda: v.Value.from_tag(good), KeyError)
                is not None, 'composite-untyped')
        tag = soup_of('<r><animated/></r>').r.animated
        p.check(p.raises(lambda: v.Value.from_tag(tag), KeyError, ValueError)
                is not None, 'animated-untyped')
    elif kind == 'animated':
        c = p.choice('c', [x for x in VALUES.split()
                           if x not in ('Composite', 'Canvas')])
        tag = soup_of('<r><animated type="real"/></r>').r.animated
        tag['type'] = spelt(p, c)
        got = v.Value.from_tag(tag)
        p.check(isinstance(got, getattr(v, c)), 'animated')
        p.check(got.is_animated, 'animated')
        p.check(got.tag is tag, 'same-tag')
    else:
        ns = CLASSES.split()
        a = p.choice('a', ns)
        b = p.choice('b', ns[:8])
        p.check((L.Layer.handles_type.from_name(a) is
                 L.Layer.handles_type.from_name(b)) == (a == b), 'distinct')


def norm(s):
    return s.replace('_', '').lower()


def layer(p, c):
    cls = getattr(L, c)
    s = spelt(p, c)
    p.check(L.Layer.handles_type.from_name(s) is cls, 'layer')
    tag = soup_of('<layer/>').layer
    tag['type'] = s
    got = L.Layer.from_tag(tag)
    p.check(type(got) is cls, 'from-tag')
    p.check(got.tag is tag, 'same-tag')
    p.check(type(L.Circle.from_tag(tag)) is cls, 'from-any-class')
    if c != 'Halftone3':
        t = cls().tag
        p.check(type(L.Layer.from_tag(t)) is cls, 'new')
        p.check(t['type'] == c.lower(), 'type')
    letters = [k for k, x in enumerate(c) if x != '_']
    j = p.choice('j', [letters[0], letters[-1]])
    w = p.char('w', 'qQ9 -.\n')
    w = p.choice('near', [c[:j] + w + c[j + 1:], c[:j] + w + c[j:], c + w])
    p.check(p.raises(lambda: L.Layer.handles_type.from_name(w), KeyError)
            is not None, 'near-miss')


def value(p, c):
    cls = getattr(v, c)
    s = spelt(p, c)
    p.check(v.Value.handles_type.from_name(s) is cls, 'value')
    if c in ('Real', 'Integer', 'Bool', 'Angle', 'Color', 'Vector',
             'Gradient', 'String', 'Time'):
        x = {'Real': 1.5, 'Integer': 3, 'Bool': True, 'Angle': 2.5,
             'Color': (1.0, 0.5, 0.25, 1.0), 'Vector': (1.5, 2.5),
             'Gradient': {0.0: '#000000', 1.0: '#ffffff'}, 'String': 'x',
             'Time': 3}[c]
        if c == 'Vector':
            t = v.X_Y(1.5, 2.5).tag
            p.check(isinstance(v.Value.from_tag(t), v.Vector), 'new-value')
        else:
            p.check(type(v.Value.from_tag(cls(x).tag)) is cls, 'new-value')
    j = p.choice('j', [0, len(c) - 1])
    w = p.char('w', 'qQ9 -.\n')
    w = p.choice('near', [c[:j] + w + c[j + 1:], c[:j] + w + c[j:], c + w])
    p.check(p.raises(lambda: v.Value.handles_type.from_name(w), KeyError)
            is not None, 'near-miss')
