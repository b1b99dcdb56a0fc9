"""Gradients."""
from harness.lib import reload, soup_of, warm
import sangfroid
import sangfroid.value as v

BOUNDS = ('gradients of 2 and 3 (thorough 4) colours at positions which are '
          'any multiples of 1/64 or 1/10000 in 0..1 (and up to +-100 in steps of '
          '1/8), given in any order; one channel of each colour symbolic')
ASSUMPTIONS = ['positions of more than six significant digits are not '
               'claimed to be kept']


def cells(tier):
    out = []
    for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
        for how in ['new', 'assign', 'animated', 'copy', 'field', 'twice']:
            out.append({'kind': 'set', 'n': n, 'how': how})
    out.append({'kind': 'wide', 'n': 2, 'how': 'new'})
    out.append({'kind': 'setitem', 'n': 2, 'k': 6})
    out.append({'kind': 'setitem', 'n': 2, 'k': 0})
    for how in ['new', 'assign', 'field']:
        out.append({'kind': 'fine', 'n': 2, 'how': how})
    out.append({'kind': 'few'})
    for n in range(4):
        out.append({'kind': 'file', 'n': n})
    out.append({'kind': 'eq'})
    return out


def make(p, n, k, lo, hi):
    pos, cols = [], []
    for i in range(n):
        x = position(p, f'p{i}', lo, hi, k)
        for y in pos:
            p.assume(x != y)
        pos.append(x)
        c = p.real(f'c{i}', 0, 1, 4)
        cols.append((c, 0.25 * i, 0.5, 0.75 - 0.25 * i))
    return pos, cols


def position(p, name, lo, hi, k):
    if k == 0:
        # four decimals
        return p.int(name, lo * 10000, hi * 10000) / 10000
    return p.real(name, lo, hi, k)


def colour(p, got, want, label):
    got = got.as_tuple()
    p.check(len(got) == 4, label)
    for a, b in zip(got, want):
        p.check(p.close(a, b, 1e-6), label)


def same(p, g, pos, cols, label, stored=True):
    p.check(len(g) == len(pos), label + '-length')
    got = list(g.items())
    for (x, c), q in zip(got, list(g)):
        p.check(x == q, label + '-iter')
    for x, c in zip(pos, cols):
        hit = [col for y, col in got if y == x]
        p.check(len(hit) == 1, label + '-position')
        colour(p, hit[0], c, label + '-colour')
        if len(pos) == 2:
            colour(p, g[x], c, label + '-item')
            p.check(x in g, label + '-in')
    p.check(len(list(g.keys())) == len(pos), label + '-keys')
    for (x, c), d, y in zip(got, g.values(), g.keys()):
        p.check(x == y, label + '-keys')
        colour(p, d, c.as_tuple(), label + '-values')
    if not stored:
        return
    tags = [float(t['pos']) for t in g.tag.find_all('color')]
    for a, b in zip(tags, tags[1:]):
        p.check(a < b, label + '-order')


def run(p, cell):
    kind = cell['kind']
    if kind in ('set', 'wide', 'fine'):
        if kind == 'set':
            pos, cols = make(p, cell['n'], 6, 0, 1)
        elif kind == 'fine':
            pos, cols = make(p, cell['n'], 0, 0, 1)
        else:
            pos, cols = make(p, cell['n'], 3, -100, 100)
        d = dict(zip(pos, cols))
        how = cell['how']
        old = {0.0: '#000000', 0.5: '#101010', 1.0: '#ffffff'}
        if how == 'new':
            g = v.Gradient(d)
        elif how == 'assign':
            g = warm(v.Gradient(old))
            g.value = d
        elif how == 'copy':
            g = warm(v.Gradient(old))
            g.value = v.Gradient(d)
        elif how == 'animated':
            g = warm(v.Gradient(old))
            g.is_animated = True
            warm(g)
            g.value = d
            p.check(not g.is_animated, 'assigning-ends-animation')
        else:
            lay = sangfroid.layer.Linear_Gradient()
            g, h = lay.gradient, lay.gradient
            warm(g, h)
            if how == 'field':
                lay.gradient = d
                g = lay.gradient
            else:
                # two objects for the same gradient
                h.value = d
        same(p, g, pos, cols, 'read')
        p.observe('keys', list(g.keys()))
        same(p, reload(g), pos, cols, 'reload')
    elif kind == 'setitem':
        pos, cols = make(p, cell['n'], cell['k'], 0, 1)
        g = warm(v.Gradient(dict(zip(pos, cols))))
        x = position(p, 'x', 0, 1, cell['k'])
        new = (0.5, 0.75, 1.0, 0.25)
        g[x] = new
        known = any([x == y for y in pos])
        p.check(len(g) == (len(pos) if known else len(pos) + 1),
                'setitem-length')
        colour(p, g[x], new, 'setitem-colour')
        for y, c in zip(pos, cols):
            if not (x == y):
                colour(p, g[y], c, 'setitem-others')
        ps, cs = [x], [new]
        for y, c in zip(pos, cols):
            if not (x == y):
                ps.append(y)
                cs.append(c)
        same(p, g, ps, cs, 'setitem')
        same(p, reload(g), ps, cs, 'setitem-reload')
    elif kind == 'file':
        n = cell['n']
        pos, cols, text = [], [], ''
        for i in range(n):
            x = p.int(f'p{i}', 0, 9)
            for y in pos:
                p.assume(x != y)
            pos.append(x)
            cols.append((0.25, 0.5 * i, 0.125, 0.75))
            text += (f'<color pos="0.{x}"><r>0.25</r><g>{0.5 * i}</g>'
                     '<b>0.125</b><a>0.75</a></color>\n')
        g = v.Value.from_tag(soup_of(f'<gradient>{text}</gradient>').find())
        p.check(isinstance(g, v.Gradient), 'file-type')
        if n < 2:
            p.check(p.raises(lambda: g.value, ValueError) is not None,
                    'file-few')
        else:
            p.check(len(g) == n, 'file-length')
            for x, c in zip(pos, cols):
                colour(p, g[x / 10], c, 'file-colour')
    elif kind == 'eq':
        pos, cols = make(p, 2, 6, 0, 1)
        x = p.real('x', 0, 1, 6)
        c = p.real('c', 0, 1, 4)
        p.assume(x != pos[0])
        g = v.Gradient(dict(zip(pos, cols)))
        h = v.Gradient({x: (c,) + cols[1][1:], pos[0]: cols[0]})
        eq = (x == pos[1]) & (c == cols[1][0])
        if eq:
            p.check(g == h, 'equal')
            p.check(not (g != h), 'equal')
        else:
            p.check(not (g == h), 'unequal')
            p.check(g != h, 'unequal')
    else:
        x = p.real('x', 0, 1, 6)
        bad = p.choice('bad', [{}, {'x': 1}, [1, 2], None, 7, 'wombat'])
        if isinstance(bad, dict) and bad:
            bad = {x: (1.0, 0.0, 0.0)}
        g = v.Gradient({0.0: '#000000', 1.0: '#ffffff'})
        before = str(g.tag)
        p.check(p.raises(lambda: setattr(g, 'value', bad), ValueError,
                         TypeError) is not None, 'too-few-rejected')
        p.check(str(g.tag) == before, 'rejected-unchanged')
