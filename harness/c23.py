"""Looking at a document changes nothing in it."""
from harness.lib import at, T
from harness.c14 import make, fields
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L

BOUNDS = (
    'a document with a layer of each of the 55 types, in or out of a group; '
    'any field of it set to any value (as for C14), animated with one or '
    'two waypoints at any frames of a range, or neither; every way there is of '
    'reading layers, fields, values, timelines, waypoints, keyframes and '
    'attributes of the animation, among them ones which fail; the same for '
    'files with unsorted waypoints or colours, times in seconds, other '
    'orders, spaces, comments and tags we do not know')
ASSUMPTIONS = []
CLASSES = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')
ANIMATION = ('width height xres yres gamma_r gamma_g gamma_b view_box '
             'antialias fps begin_time end_time bgcolor name desc size '
             'viewbox framecount background keyframes tag canvas_tag '
             'children descendants version type_ active parent '
             'tag_depth').split()


LAYER = [
    ('items', lambda x: list(x.items())),
    ('keys', lambda x: list(x.keys())),
    ('values', lambda x: list(x.values())),
    ('children', lambda x: list(x.children)),
    ('descendants', lambda x: list(x.descendants)),
    ('iter', list), ('len', len), ('repr', repr), ('str', str),
    ('first', lambda x: x[0]), ('last', lambda x: x[-1]),
    ('parent', lambda x: x.parent.parent),
    ('depth', lambda x: x.tag_depth),
    ('find', lambda x: x.find_all(True)),
    ('desc', lambda x: (x.desc, x.active, x.version, x.type_,
                        x.exclude_from_rendering))]
RAW = ['animated', 'seconds', 'gradient', 'vector', 'transformation',
       'layer', 'spaces', 'document']


def cells(tier):
    out = []
    for c in CLASSES.split():
        out.append({'kind': 'layer', 'c': c})
    for c in ['Circle', 'Star', 'Rotate', 'Text', 'Timeloop',
              'Linear_Gradient', 'Group']:
        out.append({'kind': 'animated', 'c': c})
    for c in RAW:
        out.append({'kind': 'raw', 'c': c})
    out.append({'kind': 'animation'})
    out.append({'kind': 'search'})
    out.append({'kind': 'times'})
    out.append({'kind': 'file'})
    return out


def scene(c, inside):
    a = sangfroid.Animation()
    g = L.Group()
    g.desc = 'g'
    a.append(L.Circle())
    a.append(g)
    lay = getattr(L, c)()
    lay.desc = 'the one'
    (g if inside else a).append(lay)
    a.append(L.Text('wombat'))
    return a, lay


class Watch:
    """Checks that a document stays as it is."""
    def __init__(self, p, a):
        self.p, self.a = p, a
        self.text = str(a.tag)
        self.tags = [id(t) for t in a.tag.find_all(True)]

    def look(self, what, fn):
        try:
            fn()
        except (TypeError, AttributeError, ValueError, KeyError, IndexError,
                NotImplementedError):
            pass

    def same(self, what):
        self.p.check(str(self.a.tag) == self.text, what)

    def end(self):
        self.same('unchanged')
        self.p.check([id(t) for t in self.a.tag.find_all(True)] == self.tags,
                     'same-tags')


def value(w, get, label):
    w.look(label, get)
    for how, fn in [
            ('str', str), ('repr', repr), ('value', lambda x: x.value),
            ('tuple', lambda x: x.as_tuple()), ('list', list), ('len', len),
            ('float', float), ('int', int), ('bool', bool),
            ('eq', lambda x: x == x), ('ne', lambda x: x != x.value),
            ('hash', hash), ('items', lambda x: list(x.items())),
            ('keys', lambda x: list(x.keys())),
            ('get', lambda x: x.get('angle')),
            ('parts', lambda x: (x.x, x.y, x[0], x[1], x['x'])),
            ('absent', lambda x: x['wombat']),
            ('in', lambda x: 0.5 in x),
            ('animated', lambda x: x.is_animated),
            ('type', lambda x: x.our_type), ('tag', lambda x: x.tag),
            ('expression', lambda x: x.as_python_expression())]:
        w.look(label + '-' + how, lambda: fn(get()))
    for how, fn in [
            ('list', list), ('len', len), ('bool', bool), ('str', str),
            ('repr', repr), ('keys', lambda x: list(x.keys())),
            ('values', lambda x: list(x.values())),
            ('items', lambda x: list(x.items())),
            ('at', lambda x: x[0]), ('at-end', lambda x: x[-1]),
            ('absent', lambda x: x[7]), ('text', lambda x: x['1s']),
            ('eq', lambda x: x == x), ('in', lambda x: 0 in x)]:
        w.look(label + '-timeline-' + how, lambda: fn(get().timeline))
    w.same(label)


def raw(p, c):
    """
    XML which Synfig could have written, but which we wouldn't have:
    unsorted, in other units, with spaces, comments and things
    we don't know of.
    """
    n, m = p.int('n', 0, 99), p.int('m', 0, 99)
    param, canvas = '', ''
    if c in ('animated', 'seconds'):
        u = 's' if c == 'seconds' else 'f'
        kind = p.choice('kind', ['real', 'vector', 'color'])
        val = {
            'real': '<real value="1.5" guid="A" static="true"/>',
            'vector': '<vector guid="B"><y>2</y><x>1</x></vector>',
            'color': '<color><a>1</a><b>-0.5</b><g>0.2</g><r>1.50</r></color>',
        }[kind]
        param = ('<param name="p"><animated type="' + kind + '">'
                 f'<waypoint time="{n}{u}" before="clamped" after="linear">'
                 f'{val}</waypoint>\n  <!-- x -->'
                 f'<waypoint after="constant" time="{m}{u}" before="halt" '
                 'tension="0.5" bias="0" wombat="1">'
                 f'{val}</waypoint></animated></param>')
    elif c == 'gradient':
        param = (f'<param name="p"><gradient><color pos="0.{m:02}0">'
                 '<r>1</r><g>0</g><b>0</b><a>1</a></color> '
                 f'<color pos="0.{n:02}"><a>1</a><r>.5</r><g>0</g><b>0</b>'
                 '</color></gradient></param>')
    elif c == 'vector':
        param = (f'<param name="p"><vector guid="A"><y>{n}</y>'
                 f'<x> {m}.50</x></vector></param>')
    elif c == 'transformation':
        param = ('<param name="p"><composite type="transformation">'
                 f'<scale><vector><y>{n}</y><x>{m}</x></vector></scale>'
                 '<angle><angle value="7.000"/></angle>\n'
                 '<offset><vector><x>1</x><y>2</y></vector></offset>'
                 '<skew_angle><angle value="-0"/></skew_angle>'
                 '</composite></param>')
    elif c == 'layer':
        param = (f'<param name="radius" wombat="1"><real value="{n}."/>'
                 '</param><param name="spong"><string>x</string></param>'
                 '<param name="radius"><real value="3"/></param>'
                 '<foo><real value="3"/></foo>')
    elif c == 'spaces':
        param = (f' <param name="p"> <real value="{n}e1"/> </param>\n'
                 '<!-- q --> text')
    else:
        canvas = (f'<keyframe time="{n}f" active="1">B</keyframe>'
                  f'<keyframe time="{m}f">A</keyframe>'
                  '<defs><real value="3" id="x"/></defs>'
                  '<meta name="wombat" content="1"/>')
    return (
        f'<?xml version="1.0"?><canvas version="1.2" width="{n}" view-box="1 2  3 4" '
        f'fps="24" begin-time="1f" end-time="{m}f 2s" wombat="7">'
        f'<name>n</name> {canvas}\n'
        '<layer type="group" desc="out"><param name="canvas"><canvas>'
        '<layer version="0.9" active="1" desc="the one" type="circle">'
        f'{param}</layer></canvas></param></layer><layer type="text"/>'
        '</canvas>')


def run(p, cell):
    kind = cell['kind']
    if kind == 'raw':
        looked(p, raw(p, cell['c']))
        return
    if kind == 'layer':
        c = cell['c']
        a, lay = scene(c, p.choice('inside', [True, False]))
        f, name, t = p.choice('field', fields(c))
        setattr(lay, f, make(p, t))
        w = Watch(p, a)
        value(w, lambda: getattr(lay, f), 'attribute')
        w.look('name', lambda: lay[name])
        w.look('in', lambda: (name in lay, 'wombat' in lay))
        w.look('absent', lambda: lay['wombat'])
        for how, fn in LAYER:
            w.look(how, lambda: fn(lay))
        w.end()
    elif kind == 'animated':
        c = cell['c']
        a, lay = scene(c, True)
        # one field of each type
        kinds = {}
        for x in fields(c):
            if x[2] != 'Transformation':
                kinds[x[2]] = x
        f, name, t = p.choice('field', list(kinds.values()))
        n = p.int('n', 34, 47)
        m = p.int('m', 8, 9)
        val = getattr(lay, f)
        val.timeline[n] = val.__class__(make(p, t))
        if p.choice('two', [True, False]):
            val.timeline[m] = val.__class__(make(p, t, '2'))
        w = Watch(p, a)
        value(w, lambda: getattr(lay, f), 'animated')
        value(w, lambda: lay[name], 'animated')
        w.look('there', lambda: getattr(lay, f).timeline[n])
        for how, fn in [
                ('time', lambda x: x.time), ('value', lambda x: x.value),
                ('sides', lambda x: (x.before, x.after)), ('str', str),
                ('repr', repr), ('tag', lambda x: x.tag),
                ('order', lambda x: (x < x, x == x))]:
            w.look('waypoint-' + how,
                   lambda: fn(list(getattr(lay, f).timeline)[0]))
        value(w, lambda: list(getattr(lay, f).timeline)[-1].value,
              'waypoint-value')
        w.end()
    elif kind == 'animation':
        a, lay = scene('Circle', True)
        a.width = p.int('w', 1, 9999)
        a.tag['end-time'] = f'{p.int("e", 0, 9999)}f'
        w = Watch(p, a)
        for name in ANIMATION:
            w.look(name, lambda: getattr(a, name))
            w.look(name + '-str', lambda: str(getattr(a, name)))
            w.look(name + '-list', lambda: [repr(x)
                                            for x in getattr(a, name)])
        for k in a.keyframes:
            w.look('keyframe', lambda: (k.time, k.name, k.active, str(k),
                                        repr(k), k == k))
        w.look('keyframes-len', lambda: len(a.keyframes))
        w.look('keyframes-at', lambda: a.keyframes[0])
        w.look('keyframes-absent', lambda: a.keyframes['wombat'])
        w.look('items', lambda: (list(a.items()), list(a.keys()), len(a),
                                 repr(a), str(a), list(reversed(a))))
        w.end()
    elif kind == 'search':
        a, lay = scene(p.choice('c', ['Circle', 'Text', 'Group', 'Star',
                                      'Filter_Group', 'Xor_Pattern']),
                       p.choice('inside', [True, False]))
        # (files may spell it otherwise)
        lay.tag['type'] = p.choice('spelt', [
            lay.tag['type'], lay.tag['type'].title(),
            lay.tag['type'].upper()])
        x = p.real('x', -1000, 1000, 10)
        s = p.text('s', 0, 2, 'a<\u00e9')
        w = Watch(p, a)
        for kw in [{'desc': s}, {'radius': x}, {'type': 'circle'},
                   {'text': s}, {'type': L.Group}, {'wombat': x},
                   {'attrs': {'desc': s}}, {'origin': (x, x)}]:
            for rec in [True, False]:
                w.look('find', lambda: a.find(recursive=rec, **kw))
                w.look('find_all', lambda: a.find_all(recursive=rec, **kw))
        for arg in [True, False, 'circle', L.Text, None, 7, 'Filter_Group',
                    L.Xor_Pattern, type(lay), type(lay).__name__, 'filtergroup',
                    lambda t: t.get('type') == 'text']:
            w.look('find', lambda: a.find(arg))
            w.look('find_all', lambda: a.find_all(arg))
            w.look('call', lambda: a(arg))
        w.end()
    elif kind == 'times':
        a, lay = scene('Timeloop', True)
        n = p.int('n', -9999, 9999)
        w = Watch(p, a)
        for ref in [a, lay, a.tag, lay.local_time, lay.tag]:
            for x in [n, f'{n}f', T(7)]:
                w.look('time', lambda: str(T(x, ref=ref)))
                w.look('seconds', lambda: T(x, ref=ref).seconds)
        t = T(7, ref=a)
        u = T(9)
        w.look('order', lambda: (t < u, t == u, hash(t), repr(t), int(t),
                                 float(t), t + u))
        p.check(t.frames == 7, 'operand')
        p.check(u.frames == 9 and u.fps is None, 'operand')
        w.end()
    else:
        import os
        d = p.tmpdir()
        a, lay = scene('Circle', True)
        lay.radius = p.int('r', 0, 9999)
        name = os.path.join(d, 'x.' + p.choice('ext', ['sif', 'sifz']))
        a.save(name)
        with open(name, 'rb') as f:
            was = f.read()
        b = sangfroid.Animation(name)
        w = Watch(p, b)
        w.look('children', lambda: [repr(x) for x in b.descendants])
        w.look('field', lambda: b.find(desc='the one').radius.value)
        sangfroid.Animation(name)
        with open(name, 'rb') as f:
            p.check(f.read() == was, 'loading')
        p.check(os.listdir(d) == [os.path.basename(name)], 'loading')
        w.end()


def looked(p, text):
    import os
    name = os.path.join(p.tmpdir(), 'x.sif')
    with open(name, 'wb') as f:
        f.write(text.encode('utf-8'))
    a = sangfroid.Animation(name)
    w = Watch(p, a)
    for lay in [a.find(desc='the one'), a.find(desc='out')]:
        for how, fn in LAYER:
            w.look(how, lambda: fn(lay))
        for name in ['p', 'radius', 'spong', 'wombat', 'z_depth', 'origin']:
            value(w, lambda: lay[name], 'raw')
            w.look(name, lambda: getattr(lay, name))
        value(w, lambda: list(lay['p'].timeline)[0].value, 'raw')
    for name in ANIMATION:
        w.look(name, lambda: getattr(a, name))
        w.look(name, lambda: [repr(x) for x in getattr(a, name)])
    for k in a.keyframes:
        w.look('keyframe', lambda: (k.time, k.name, k.active, str(k),
                                    repr(k), k == k))
    w.look('find', lambda: a.find_all(True))
    w.look('find', lambda: a.find_all(p=1.5))
    w.look('layers', lambda: (list(a), len(a), repr(a), list(reversed(a)),
                              a[0], a[1]))
    w.end()
