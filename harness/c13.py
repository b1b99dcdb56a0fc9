"""Searching for layers."""
from harness.lib import soup_of, T
import sangfroid
from sangfroid import layer as L

BOUNDS = (
    'ten shapes of tree of up to 6 layers, to depth 3 (and 27 layers, depth 8); each layer of any '
    'of four types where it has nothing inside it; descriptions any text of '
    'up to 2 letters over a, b, B (or none), numbers any integer 0..3 or '
    'animated; searched by type (every case of each letter and underscores '
    'anywhere in names of 4 to 15 letters, or the class), description, '
    'number, truth value, colour, vector, time, function (with 10 kinds of '
    'answer), True, False; recursively or not; from '
    'the animation, from a group inside, and from a layer which is no group')
ASSUMPTIONS = ['one criterion at a time']
TYPES = ['circle', 'text', 'linear_gradient', 'rotate']
SHAPES = [[], ['x'], ['x', 'x', 'x'], [['x']], ['x', ['x', 'x'], 'x'],
          [['x', ['x']], 'x'], [[], ['x'], 'x'], [[['x'], 'x'], ['x']],
          [[[[[[[['x']]]]]]]], ['x'] * 13 + [['x'] * 13]]
FIELDS = ['color', 'hex', 'origin', 'invert', 'blend_method', 'amount',
          'text', 'version', 'exclude_from_rendering', 'link_time']
BY = ['type', 'class', 'kwtype', 'attrs', 'desc', 'radius', 'active', 'fn',
      'true', 'false', 'text', 'both']


def cells(tier):
    out = []
    for i in range(len(SHAPES)):
        for by in BY if i < 8 else ['fn', 'type', 'true', 'false']:
            for rec in [True, False]:
                out.append({'kind': 'tree', 'shape': i, 'by': by,
                            'rec': rec})
    for name in ['circle', 'text', 'group', 'linear_gradient', 'rotate',
                 'timeloop']:
        out.append({'kind': 'spelling', 'name': name})
    out.append({'kind': 'inner'})
    out.append({'kind': 'leaf'})
    out.append({'kind': 'bad'})
    out.append({'kind': 'animated'})
    out.append({'kind': 'number'})
    for by in ['name', 'class', 'part', 'more']:
        out.append({'kind': 'all', 'by': by})
    out.append({'kind': 'none'})
    out.append({'kind': 'truth'})
    for f in FIELDS:
        out.append({'kind': 'field', 'f': f})
    return out


CLASSES = {'circle': 'Circle', 'text': 'Text', 'rotate': 'Rotate',
           'linear_gradient': 'Linear_Gradient', 'group': 'Group'}


class Node:
    def __init__(self, i, depth):
        self.i = i
        self.depth = depth
        self.type = None
        self.desc = None
        self.radius = None
        self.active = True
        self.text = None


def build(p, spec, by, nodes, depth, into):
    """Fills a group; nodes is in the order of the file."""
    mine = []
    for s in reversed(spec):
        n = Node(len(nodes) + len(mine), depth)
        mine.append((s, n))
    # children() is the file reversed: build in the order of the file
    for s, n in mine:
        n.i = len(nodes)
        nodes.append(n)
        if s == 'x' and len(spec) > 9:
            # too many for each to be anything
            n.type = 'linear_gradient' if n.i == 11 else 'circle'
            lay = getattr(L, CLASSES[n.type])()
        elif s == 'x':
            if by in ('type', 'class', 'kwtype', 'attrs', 'both'):
                n.type = p.choice(f't{n.i}', ['circle', 'linear_gradient'])
            elif by == 'radius':
                n.type = p.choice(f't{n.i}', ['circle', 'rotate'])
            elif by == 'text':
                n.type = p.choice(f't{n.i}', ['text', 'circle'])
            else:
                n.type = TYPES[n.i % 4]
            lay = getattr(L, CLASSES[n.type])()
        else:
            n.type = 'group'
            lay = L.Group()
        if by in ('desc', 'fn') and (n.i % 9 == 2 or len(spec) < 9):
            k = p.choice(f'k{n.i}', [0, 1])
            if k:
                n.desc = p.text(f'd{n.i}', 1, 1, 'abB')
                lay.desc = n.desc
        if by == 'radius' and n.type == 'circle':
            n.radius = p.int(f'r{n.i}', 0, 3)
            lay.radius = n.radius
        if by == 'text' and n.type == 'text':
            n.text = p.text(f's{n.i}', 1, 1, 'ab')
            lay.text = n.text
        if by == 'active':
            n.active = bool(p.choice(f'a{n.i}', [True, False]))
            lay.active = n.active
        lay.tag['vp'] = str(n.i)
        into.tag_for_layers.append(lay.tag)
        into.tag_for_layers.append('\n')
        if s != 'x':
            build(p, s, by, nodes, depth + 1, Into(lay))


class Into:
    def __init__(self, lay):
        self.lay = lay
        self.tag_for_layers = lay.canvas_tag


def run(p, cell):
    kind = cell['kind']
    if kind == 'tree':
        tree(p, cell)
    elif kind == 'spelling':
        spelling(p, cell)
    elif kind == 'inner':
        inner(p)
    elif kind == 'all':
        every_type(p, cell['by'])
    elif kind == 'none':
        # layers without the field don't have None in it
        a = sangfroid.Animation()
        want = []
        for i in range(3):
            c = p.choice(f't{i}', [L.Circle, L.Text, L.Rotate])()
            a.append(c)
            if p.choice(f'd{i}', [True, False]):
                c.desc = p.text(f's{i}', 0, 1, 'a')
            else:
                want.insert(0, c.tag)
        for k in ('radius', 'text', 'wombat', 'amount', 'color'):
            p.check(a.find_all(**{k: None}) == [], 'no-field')
        got = a.find_all(desc=None)
        p.check(len(got) == len(want), 'no-desc')
        for g, w in zip(got, want):
            p.check(g.tag is w, 'no-desc')
    elif kind == 'truth':
        # a function may accept a layer by anything which is true
        a = sangfroid.Animation()
        g = L.Group()
        a.append(g)
        want = []
        for i in range(3):
            c = L.Circle()
            (g if i == 1 else a).append(c)
            c.tag['vp'] = str(i)
        ans = [p.choice(f'x{i}', [True, False, None, 1, 0, 'yes', '', [0],
                                  [], 2.5]) for i in range(3)]
        for rec in (True, False):
            seen = []

            def fn(t):
                seen.append(t)
                return ans[int(str(t['vp']))] if 'vp' in t.attrs else 0
            got = a.find_all(fn, recursive=rec)
            want = [i for i in ((2, 0, 1) if rec else (2, 0)) if ans[i]]
            p.check([int(str(c.tag['vp'])) for c in got] == want, 'truth')
            one = a.find(fn, recursive=rec)
            p.check((one is None) == (not want), 'truth-first')
            if want:
                p.check(one.tag is got[0].tag, 'truth-first')
    elif kind == 'field':
        field(p, cell['f'])
    elif kind == 'leaf':
        c = p.choice('c', [L.Circle, L.Text, L.Rotate])()
        c.desc = 'x'
        c.text = 'x'
        for r in (True, False):
            p.check(c.find_all(True, recursive=r) == [], 'leaf')
            p.check(c.find_all('circle', recursive=r) == [], 'leaf')
            p.check(c.find(desc='x', recursive=r) is None, 'leaf')
    elif kind == 'bad':
        a = sangfroid.Animation()
        a.append(L.Circle())
        x = p.choice('x', [None, 3, [], 2.5, {}])
        p.check(p.raises(lambda: a.find_all(x), TypeError) is not None,
                'criterion-type')
        p.check(p.raises(lambda: a.find(x), TypeError) is not None,
                'criterion-type')
    elif kind == 'animated':
        a = sangfroid.Animation()
        want = []
        x = p.int('x', 0, 3)
        for i in range(3):
            c = L.Circle()
            a.append(c)
            n = p.int(f'n{i}', 0, 3)
            c.radius = n
            moving = p.choice(f'm{i}', [True, False])
            if moving:
                c.radius.is_animated = True
            elif n == x:
                want.insert(0, c.tag)
        got = a.find_all(radius=x)
        p.check(len(got) == len(want), 'animated')
        for g, w in zip(got, want):
            p.check(g.tag is w, 'animated')
    else:
        # the first, of several
        a = sangfroid.Animation()
        ds = []
        for i in range(3):
            c = L.Circle()
            d = p.text(f'd{i}', 0, 2, 'abB')
            c.desc = d
            a.tag.append(c.tag)
            ds.append(d)
        x = p.text('x', 0, 2, 'abB')
        got = a.find_all(desc=x)
        one = a.find(desc=x)
        also = a(desc=x)
        hits = [i for i, d in enumerate(ds) if d == x]
        p.check(len(got) == len(hits), 'count')
        tags = [c.tag for c in a.find_all(True)]
        for g, i in zip(got, hits):
            p.check(g.tag is tags[i], 'which')
        if hits:
            p.check(one.tag is tags[hits[0]], 'first')
            p.check(also.tag is tags[hits[0]], 'first-by-calling')
            p.check(one.desc == x, 'desc')
        else:
            p.check(one is None, 'none')
            p.check(also is None, 'none')


def ask(p, a, by, rec):
    """The answer, and which nodes it should have."""
    if by == 'type':
        t = p.choice('t', ['circle', 'linear_gradient', 'group', 'wombat'])
        return a.find_all(t, recursive=rec), lambda n: n.type == t
    if by == 'class':
        t = p.choice('t', ['circle', 'linear_gradient', 'group'])
        return (a.find_all(getattr(L, CLASSES[t]), recursive=rec),
                lambda n: n.type == t)
    if by == 'kwtype':
        t = p.choice('t', ['circle', 'Linear_Gradient', 'group'])
        return (a.find_all(type=t, recursive=rec),
                lambda n: n.type == t.lower())
    if by == 'attrs':
        t = p.choice('t', ['circle', 'linear_gradient', 'group'])
        return (a.find_all(attrs={'type': getattr(L, CLASSES[t])},
                           recursive=rec), lambda n: n.type == t)
    if by == 'both':
        t = p.choice('t', ['circle', 'lineargradient'])
        return (a.find_all(attrs={'type': t}, recursive=rec),
                lambda n: n.type.replace('_', '') == t)
    if by == 'desc':
        x = p.text('x', 0, 1, 'abB')
        return (a.find_all(desc=x, recursive=rec),
                lambda n: n.desc is not None and n.desc == x)
    if by == 'radius':
        x = p.int('x', 0, 3)
        return (a.find_all(radius=x, recursive=rec),
                lambda n: n.radius is not None and n.radius == x)
    if by == 'text':
        x = p.text('x', 1, 1, 'ab')
        return (a.find_all(attrs={'text': x}, recursive=rec),
                lambda n: n.text is not None and n.text == x)
    if by == 'active':
        x = bool(p.choice('x', [True, False]))
        return (a.find_all(active=x, recursive=rec),
                lambda n: n.active == x)
    if by == 'fn':
        x = p.text('x', 1, 1, 'abB')
        return (a.find_all(lambda t: t.get('desc') == x, recursive=rec),
                lambda n: n.desc is not None and n.desc == x)
    if by == 'true':
        return a.find_all(True, recursive=rec), lambda n: True
    return a.find_all(False, recursive=rec), lambda n: False


def tree(p, cell):
    a = sangfroid.Animation()
    nodes = []
    by = cell['by']
    build(p, SHAPES[cell['shape']], by, nodes, 0, Into(a))
    before = str(a.tag)
    got, pred = ask(p, a, by, cell['rec'])
    p.check(str(a.tag) == before, 'unchanged')
    want = [n.i for n in nodes
            if (cell['rec'] or n.depth == 0) and pred(n)]
    p.check(isinstance(got, list), 'list')
    p.check([int(str(g.tag['vp'])) for g in got] == want, 'found')
    for g in got:
        n = nodes[int(str(g.tag['vp']))]
        p.check(type(g).__name__.lower() == n.type, 'class')


def spelling(p, cell):
    """The name of a type, however it is spelt."""
    name = cell['name']
    a = sangfroid.Animation()
    for t in ['Circle', 'Text', 'Group', 'Linear_Gradient', 'Rotate',
              'Timeloop', 'Radial_Gradient', 'Zoom']:
        a.append(getattr(L, t)())
    i = p.choice('i', list(range(len(name))))
    spelt = ''
    for j, c in enumerate(name):
        if c == '_':
            if p.choice('drop', [True, False]):
                continue
            spelt += '_'
        else:
            spelt += p.char(f'c{j}', c + c.upper())
        if j == i:
            spelt += '_'
    got = a.find_all(spelt)
    p.check(len(got) == 1, 'found')
    p.check(got[0].tag['type'].replace('_', '') == name.replace('_', ''),
            'type')
    j = p.choice('j', [k for k, c in enumerate(name) if c != '_'])
    wrong = name[:j] + p.char('w', 'qQ1') + name[j + 1:]
    p.check(a.find_all(wrong) == [], 'no-such-type')
    p.check(a.find(wrong) is None, 'no-such-type')


EVERY = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Scale Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')


def every_type(p, by):
    """Among one layer of every type, one is found, and only by its name."""
    a = sangfroid.Animation()
    names = EVERY.split()
    for t in names:
        a.append(getattr(L, t)())
    if by == 'name':
        t = p.choice('t', names)
        got = a.find_all(t)
        p.check(len(got) == 1 and type(got[0]) is getattr(L, t), 'one')
    elif by == 'class':
        t = p.choice('t', names)
        got = a.find_all(getattr(L, t))
        p.check(len(got) == 1 and type(got[0]) is getattr(L, t), 'one')
    else:
        t = p.choice('t', ['circle', 'noise', 'noise_distort', 'text',
                           'blur', 'outline', 'skeleton', 'group'])
        if by == 'part':
            i = p.choice('i', [0, 1, len(t) // 2])
            j = p.choice('j', [len(t), len(t) - 1, len(t) // 2])
            s = t[i:j]
        else:
            extra = p.char('c', 'sx 2-.*')
            s = p.choice('where', [True, False])
            s = t + extra if s else extra + t
        got = a.find_all(s)
        want = [x for x in names
                if x.lower().replace('_', '') == s.lower().replace('_', '')]
        p.check(len(got) == len(want), 'parts-of-names')
        for g in got:
            p.check(type(g).__name__ in want, 'parts-of-names')


def inner(p):
    a = sangfroid.Animation()
    gs = []
    for i in range(2):
        g = L.Group()
        g.desc = p.text(f'g{i}', 1, 1, 'ab')
        a.append(g)
        for j in range(2):
            c = L.Circle()
            c.desc = p.text(f'c{i}{j}', 1, 1, 'ab')
            g.append(c)
        gs.append(g)
    i = p.choice('in', [0, 1])
    x = p.text('x', 1, 1, 'ab')
    for rec in (True, False):
        got = gs[i].find_all(desc=x, recursive=rec)
        want = [c for c in reversed(list(gs[i].children)) if c.desc == x]
        p.check(len(got) == len(want), 'inside-count')
        for g, w in zip(got, want):
            p.check(g.tag is w.tag, 'inside')
    one = gs[i].find(desc=x)
    p.check((one is None) == (not want), 'inside-first')
    if want:
        p.check(one.tag is want[0].tag, 'inside-first')


def field(p, f):
    """By the contents of a field of any type."""
    a = sangfroid.Animation()
    g = L.Group()
    a.append(g)
    cls = {'amount': L.Rotate, 'text': L.Text, 'link_time': L.Timeloop}
    vals, tags = [], []
    for i in range(3):
        c = cls.get(f, L.Circle)()
        (g if i == 1 else a).append(c)
        k = p.int(f'k{i}', 0, 2)
        x = {'color': lambda: (k * 0.25, 0.5, 0.75, 1.0),
             'hex': lambda: ['#102aff', '#102afe', '#102aff00'][int(k)],
             'origin': lambda: (k + 0.5, 2.5),
             'invert': lambda: k == 1, 'blend_method': lambda: k,
             'exclude_from_rendering': lambda: k == 1,
             'amount': lambda: k + 0.5, 'version': lambda: 0.5 + int(k),
             'text': lambda: 'wom' + 'bat'[:int(k)],
             'link_time': lambda: T(k)}[f]()
        setattr(c, 'color' if f == 'hex' else f, x)
        if f == 'color':
            # a channel has six decimals
            x = c.color.as_tuple()
        vals.append(x)
        tags.append(c.tag)
    # the group may have one too
    tags.append(g.tag)
    vals.append({'blend_method': 0, 'exclude_from_rendering': False}.get(f))
    w = p.choice('want', [0, 1, 2])
    x = vals[w]
    for rec in (True, False):
        want = [tags[i] for i in ((2, 0, 3, 1) if rec else (2, 0, 3))
                if vals[i] == x]
        name = 'color' if f == 'hex' else f
        for got in [a.find_all(recursive=rec, **{name: x}),
                    a.find_all(recursive=rec, attrs={name: x})]:
            p.check(len(got) == len(want), 'field-number')
            for q, r in zip(got, want):
                p.check(q.tag is r, 'field')
        if f == 'hex':
            got = a.find_all(recursive=rec, color=x.upper())
            p.check(len(got) == len(want), 'field-case')
        one = a.find(recursive=rec, **{name: x})
        p.check((one is None) == (not want), 'field-first')
        if want:
            p.check(one.tag is want[0], 'field-first')
