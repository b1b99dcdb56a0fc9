"""Layers stay in the order they were put in."""
import os
from harness.lib import soup_of
import sangfroid
from sangfroid import layer as L

BOUNDS = (
    'sequences of 3 (thorough 4) appends and inserts, at any index which '
    'the group has (negative ones too) or has not, of circles, texts or '
    'groups, into an empty group, a new animation, and groups and '
    'animations of 1 to 3 layers as files have them (newlines, comments '
    'and other tags in between); moving layers between groups, up to 3 times; nesting to '
    'depth 3; saved and loaded again in both formats')
ASSUMPTIONS = ['a layer is not inserted before itself']
STARTS = ['group', 'animation', 'file1', 'file3', 'afile2', 'nested']


def cells(tier):
    out = []
    n = 4 if tier == 'thorough' else 3
    seqs = [[]]
    for _ in range(n):
        seqs = [s + [o] for s in seqs for o in ('append', 'insert')]
    for start in STARTS:
        for s in seqs:
            out.append({'kind': 'ops', 'start': start, 'ops': s})
    for start in STARTS:
        out.append({'kind': 'beyond', 'start': start})
        out.append({'kind': 'bad', 'start': start})
    for how in ['append', 'insert']:
        out.append({'kind': 'move', 'how': how})
        out.append({'kind': 'depth', 'how': how})
    for how in ['append', 'insert', 'remove']:
        out.append({'kind': 'history', 'how': how})
    out.append({'kind': 'odd'})
    out.append({'kind': 'types'})
    for start in ['group', 'animation']:
        out.append({'kind': 'many', 'start': start})
    out.append({'kind': 'notgroup'})
    for ext in ['sif', 'sifz']:
        out.append({'kind': 'save', 'ext': ext})
    out.append({'kind': 'canvas'})
    return out


FILE = ('<layer type="{t}" active="true" version="0.3" desc="old{i}">'
        '<param name="z_depth"><real value="0.5"/></param></layer>')
GROUP = ('<layer type="group" active="true" version="0.3" desc="g">'
         '<param name="z_depth"><real value="0.5"/></param>'
         '<param name="canvas"><canvas>\n  {}\n</canvas></param></layer>')


def begin(start):
    """A group, the thing it's in, and the descs of its layers."""
    if start == 'group':
        return L.Group(), []
    if start == 'animation':
        return sangfroid.Animation(), []
    n = int(start[-1]) if start[-1].isdigit() else 2
    body = '\n <!-- wombat -->\n'.join(
        FILE.format(t='circle' if i % 2 else 'text', i=i)
        for i in range(n))
    descs = [f'old{i}' for i in reversed(range(n))]
    if start == 'afile2':
        a = sangfroid.Animation()
        for t in soup_of('<r>' + body + '</r>').r.find_all('layer'):
            a.tag.append(t.extract())
            a.tag.append('\n')
        return a, descs
    tag = soup_of(GROUP.format(body)).find()
    if start == 'nested':
        a = sangfroid.Animation()
        a.tag.append(tag.extract())
        return a[0], descs
    return L.Layer.from_tag(tag), descs


def agree(p, g, want, label):
    p.check([c.desc for c in g.children] == want, label + '-children')
    p.check([c.desc for c in g] == want, label + '-iteration')
    p.check([c.desc for c in list(g.children)] ==
            [g[i].desc for i in range(len(want))], label + '-index')
    p.check([g[-i - 1].desc for i in range(len(want))] ==
            list(reversed(want)), label + '-negative-index')
    p.check(p.raises(lambda: g[len(want)], IndexError) is not None,
            label + '-end')
    p.check([c.desc for c in g.find_all(True, recursive=False)] ==
            list(reversed(want)), label + '-file-order')
    p.check(len(g) == len(want), label + '-len')
    p.check([c.desc for c in reversed(g)] == list(reversed(want)),
            label + '-reversed')


def new(p, i):
    k = p.choice(f'k{i}', [0, 1]) if i < 2 else 0
    lay = L.Circle() if k == 0 else L.Group()
    lay.desc = f'new{i}'
    return lay


def run(p, cell):
    kind = cell['kind']
    if kind == 'ops':
        g, want = begin(cell['start'])
        others = rest(g)
        for i, op in enumerate(cell['ops']):
            lay = new(p, i)
            before = str(lay.tag)
            if op == 'append':
                g.append(lay)
                want = want + [lay.desc]
            else:
                if not want:
                    p.check(p.raises(lambda: g.insert(0, lay), IndexError)
                            is not None, 'insert-empty')
                    continue
                n = len(want)
                at = p.int(f'at{i}', -n, n - 1)
                g.insert(at, lay)
                k = at if at >= 0 else at + n
                want = want[:k] + [lay.desc] + want[k:]
            agree(p, g, want, op)
            p.check(str(lay.tag) == before, 'layer-unchanged')
            p.check(len(g) == len(want), 'len')
        p.check(rest(g) == others, 'rest')
    elif kind == 'beyond':
        g, want = begin(cell['start'])
        n = len(want)
        at = p.int('at', -n - 5, n + 5)
        p.assume((at >= n) | (at < -n))
        before = str(g.tag)
        p.check(p.raises(lambda: g.insert(at, L.Circle()), IndexError)
                is not None, 'insert-beyond')
        p.check(p.raises(lambda: g[at], IndexError) is not None,
                'index-beyond')
        p.check(str(g.tag) == before, 'refused-unchanged')
    elif kind == 'bad':
        g, want = begin(cell['start'])
        before = str(g.tag)
        x = p.choice('x', [None, 'wombat', 3, [], g.tag, L.Circle])
        p.check(p.raises(lambda: g.append(x), TypeError) is not None,
                'append-type')
        p.check(p.raises(lambda: g.insert(0, x), TypeError) is not None,
                'insert-type')
        p.check(str(g.tag) == before, 'refused-unchanged')
    elif kind == 'move':
        move(p, cell)
    elif kind == 'history':
        history(p, cell)
    elif kind == 'depth':
        depth(p, cell)
    elif kind == 'odd':
        odd(p)
    elif kind == 'types':
        types(p)
    elif kind == 'many':
        # more layers than have one digit
        g, want = begin(cell['start'])
        for i in range(13):
            c = L.Circle()
            c.desc = f'm{i}'
            g.append(c)
            want.append(c.desc)
        agree(p, g, want, 'many')
        for i in range(2):
            n = len(want)
            at = p.int(f'at{i}', -n, n - 1) if i == 0 else -11
            c = new(p, i)
            g.insert(at, c)
            k = at if at >= 0 else at + n
            want = want[:k] + [c.desc] + want[k:]
        agree(p, g, want, 'many')
    elif kind == 'notgroup':
        c = p.choice('c', [L.Circle, L.Text, L.Rotate, L.Import])()
        before = str(c.tag)
        p.check(p.raises(lambda: c.append(L.Circle()), NotImplementedError)
                is not None, 'not-a-group')
        p.check(list(c.children) == [], 'no-children')
        p.check(len(c) == 0, 'no-length')
        p.check(list(c.find_all(True)) == [], 'nothing-inside')
        p.check(str(c.tag) == before, 'refused-unchanged')
    elif kind == 'save':
        save(p, cell)
    else:
        # the canvas of a group, as a value
        g, want = begin('file3')
        n = p.choice('n', [0, 1, 2, 3])
        ls = []
        for i in range(n):
            ls.append(new(p, i))
        g.canvas = ls
        # (a canvas is in the order of the file)
        p.check([c.desc for c in g.canvas.value] == [c.desc for c in ls],
                'canvas')
        agree(p, g, [c.desc for c in reversed(ls)], 'canvas')
        before = str(g.tag)
        x = p.choice('x', [[None], ['x'], [L.Circle(), 3], 7, None])
        p.check(p.raises(lambda: setattr(g, 'canvas', x), TypeError)
                is not None, 'canvas-type')
        p.check(str(g.tag) == before, 'canvas-refused')


def rest(g):
    """Everything in a group but its layers."""
    out = [sorted(g.tag.attrs.items())]
    for c in g.tag.contents:
        if c.name == 'layer' or c.name is None:
            continue
        if c.name == 'param' and c['name'] == 'canvas':
            continue
        out.append(str(c))
    return out


def move(p, cell):
    a = sangfroid.Animation()
    gs, want = [], []
    for i in range(2):
        g = L.Group()
        g.desc = f'group{i}'
        a.append(g)
        w = []
        for j in range(3):
            c = L.Circle()
            c.desc = f'{i}.{j}'
            g.append(c)
            w.append(c.desc)
        gs.append(g)
        want.append(w)
    which = p.int('which', 0, 2)
    d = gs[0][which]
    if cell['how'] == 'append':
        gs[1].append(d)
        want[1] = want[1] + [d.desc]
    else:
        at = p.int('at', 0, 2)
        gs[1].insert(at, d)
        want[1] = want[1][:at] + [d.desc] + want[1][at:]
    want[0] = [x for x in want[0] if x != d.desc]
    for g, w in zip(gs, want):
        agree(p, g, w, 'move')
    agree(p, a, ['group0', 'group1'], 'move-outside')
    p.check(d.parent.desc == 'group1', 'move-parent')


def history(p, cell):
    """Layers which come and go; the groups are asked each time."""
    a = sangfroid.Animation()
    gs = [a]
    for i in range(2):
        g = L.Group()
        g.desc = f'group{i}'
        a.append(g)
        gs.append(g)
    want = [['group0', 'group1'], [], []]
    lays = []
    for j in range(3):
        c = L.Circle()
        c.desc = f'c{j}'
        gs[1].append(c)
        want[1].append(c.desc)
        lays.append(c)
    for g, w in zip(gs, want):
        agree(p, g, w, 'history-start')
    for i in range(3):
        c = lays[p.choice(f'which{i}', [0, 2]) if i < 2 else 1]
        to = p.choice(f'to{i}', [0, 1, 2]) if i < 2 else 1
        if cell['how'] == 'remove':
            c.tag.extract()
        here = [x for x in want[to] if x != c.desc]
        n = len(here)
        if cell['how'] == 'insert' and n:
            k = p.choice(f'at{i}', [0, -1])
            other = [x for x in gs[to].children if x.desc == here[k]][0]
            at = [x.desc for x in gs[to].children].index(other.desc)
            gs[to].insert(at, c)
            here.insert(here.index(other.desc), c.desc)
        else:
            gs[to].append(c)
            here.append(c.desc)
        for j in range(3):
            want[j] = [x for x in want[j] if x != c.desc]
        want[to] = here
        for g, w in zip(gs, want):
            agree(p, g, w, 'history')


def depth(p, cell):
    a = sangfroid.Animation()
    chain = [a]
    n = p.choice('n', [1, 2, 3])
    for i in range(n):
        g = L.Group()
        g.desc = f'group{i}'
        if cell['how'] == 'append' or not len(chain[-1]):
            chain[-1].append(g)
        else:
            chain[-1].insert(0, g)
        chain.append(g)
        x = L.Circle()
        x.desc = f'leaf{i}'
        g.append(x)
        p.check(x.tag_depth == i + 1, 'depth')
        p.check(x.parent.desc == g.desc, 'parent')
        p.check(x.parent.tag is g.tag, 'parent-itself')
        p.check(g.tag_depth == i, 'group-depth')
        if i == 0:
            p.check(g.parent is None, 'outermost')
        else:
            p.check(g.parent.desc == f'group{i - 1}', 'group-parent')
    for i, g in enumerate(chain[1:]):
        want = [f'leaf{i}']
        if i + 1 < n:
            if cell['how'] == 'append':
                want = want + [f'group{i + 1}']
            else:
                want = [f'group{i + 1}'] + want
        agree(p, g, want, 'depth')
    p.check(L.Circle().parent is None, 'alone')
    p.check(L.Circle().tag_depth == 0, 'alone')


WRAP = ['{}', '<param name="canvas"><canvas>{}</canvas></param>',
        '<param name="canvas"><canvas><defs><canvas id="x">{}</canvas></defs>'
        '</canvas></param>', '<param name="wombat"><canvas>{}</canvas></param>',
        '<param name="list"><static_list><entry>{}</entry></static_list>'
        '</param>']


def odd(p):
    """Layers inside other layers, wherever that is."""
    text = '<layer type="circle" desc="c"/>'
    n = p.choice('n', [0, 1, 2, 3])
    for i in range(n):
        text = (f'<layer type="group" desc="g{i}">' +
                p.choice(f'w{i}', WRAP).format(text) + '</layer>')
    tag = soup_of(f'<canvas>{text}</canvas>').find(desc='c')
    x = L.Layer.from_tag(tag)
    p.check(x.tag_depth == n, 'odd-depth')
    for i in range(n):
        x = x.parent
        p.check(x.desc == f'g{i}', 'odd-parent')
        p.check(x.tag_depth == n - i - 1, 'odd-depth')
    p.check(x.parent is None, 'odd-parent')


def types(p):
    """A layer of each type, as files have them."""
    # (files have some names with underscores)
    names = sorted({n for k in L.Layer.handles_type.handlers.values()
                    for n in (k.__name__.lower(),
                              k.__name__.lower().replace('_', ''))} |
                   set(L.Layer.handles_type.handlers) |
                   {'filter_group', 'curve_warp'})
    name = p.choice('name', [n for n in names if n not in (
        'layer', 'field', 'animation')])
    extra = p.choice('extra', ['', ' active="true"', ' active="false"',
                               ' active="true" version="0.1" group="x"',
                               ' exclude_from_rendering="true"'])
    g = L.Layer.from_tag(soup_of(GROUP.format(
        f'<layer type="{name}" desc="it"{extra}/>' +
        FILE.format(t='text', i=0))).find())
    agree(p, g, ['old0', 'it'], 'types')
    c = L.Circle()
    c.desc = 'c'
    g.insert(1, c)
    agree(p, g, ['old0', 'c', 'it'], 'types')
    it = g[2]
    p.check(it.parent.tag is g.tag, 'types-parent')
    g.append(it)
    agree(p, g, ['old0', 'c', 'it'], 'types')
    g.insert(0, it)
    agree(p, g, ['it', 'old0', 'c'], 'types')


def save(p, cell):
    a = sangfroid.Animation()
    g = L.Group()
    g.desc = 'g'
    a.append(g)
    want, inside = ['g'], []
    for i in range(2):
        c = L.Circle()
        c.desc = f'in{i}'
        at = p.choice(f'i{i}', [0, -1, None])
        if at is None or not inside:
            g.append(c)
            inside.append(c.desc)
        else:
            g.insert(at, c)
            k = at if at >= 0 else len(inside) + at
            inside.insert(k, c.desc)
    for i in range(2):
        c = L.Text('x')
        c.desc = f'out{i}'
        at = p.choice(f'o{i}', [0, -1, None])
        if at is None:
            a.append(c)
            want.append(c.desc)
        else:
            a.insert(at, c)
            k = at if at >= 0 else len(want) + at
            want.insert(k, c.desc)
    name = os.path.join(p.tmpdir(), 'x.' + cell['ext'])
    a.save(name)
    agree(p, a, want, 'after-save')
    b = sangfroid.Animation(name)
    agree(p, b, want, 'loaded')
    agree(p, b.find('group'), inside, 'loaded-inside')
