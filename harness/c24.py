"""However you reach a layer or a value, it's the same one."""
import sangfroid
import sangfroid.value as v
from harness.lib import at, soup_of, T, warm
from sangfroid import layer as L

BOUNDS = (
    '11 ways of reaching a layer of an animation, at depth 0 to 2, or one '
    'which has just been moved there; each pair of them, where one object '
    'is used to change the layer (any field, description, flag or '
    'timeline of it, or the layers inside it, twice) and the other, '
    'reached before the change or after it, to read it; 6 ways of '
    'reaching a value, likewise; reals any multiple of 2^-10 up to '
    '+-1000, times any frame 0..999')
ASSUMPTIONS = ['an object for a value which is replaced in the document by '
               'one of another shape (animated or not) is reached again; a '
               'Waypoint is a copy, and not claimed to be reached twice']
LAYER = ['kept', 'index', 'negative', 'children', 'iteration', 'find',
         'find_all', 'function', 'parent', 'call', 'descendants']
VALUE = ['attribute', 'name', 'items', 'values', 'again', 'found']
CHANGES = ['desc', 'active', 'radius', 'color', 'origin', 'timeline',
           'item']


def cells(tier):
    out = []
    for one in LAYER:
        for depth in [0, 1, 2]:
            if one == 'descendants' and depth == 2:
                continue
            out.append({'kind': 'layer', 'one': one, 'depth': depth})
    for one in VALUE:
        for t in ['radius', 'color', 'origin', 'invert']:
            out.append({'kind': 'value', 'one': one, 't': t})
    for one in LAYER:
        out.append({'kind': 'inside', 'one': one})
    out.append({'kind': 'part'})
    out.append({'kind': 'place'})
    out.append({'kind': 'waypoint'})
    return out


def scene(depth, cls=L.Circle):
    """An animation, what's inside it, and the layer of interest."""
    a = sangfroid.Animation()
    a.append(L.Rotate())
    where = a
    for i in range(depth):
        g = L.Group()
        g.desc = f'group{i}'
        where.append(g)
        where = g
        g.append(L.Text('x'))
    lay = cls()
    lay.desc = 'the one'
    where.append(lay)
    if cls is L.Group:
        x = L.Star()
        x.desc = 'inside'
        lay.append(x)
    where.append(L.Text('y'))
    return a, where, lay


def reach(a, where, lay, way):
    """Another object for lay, which is in where, which is in a."""
    if way == 'kept':
        return lay
    if way == 'index':
        return where[1]
    if way == 'negative':
        return where[-2]
    if way == 'children':
        return list(where.children)[1]
    if way == 'iteration':
        return [x for x in where][1]
    if way == 'find':
        got = a.find(desc='the one')
        return a.find(desc='another') if got is None else got
    if way == 'find_all':
        return where.find_all(True, recursive=False)[1]
    if way == 'function':
        return a.find(lambda t: t is lay.tag)
    if way == 'parent':
        got = lay.find(desc='inside')
        return lay if got is None else got.parent
    if way == 'call':
        return a(type(lay), recursive=True) if type(lay) is L.Circle \
            else where[1]
    for x in a.descendants:
        if x.tag is lay.tag:
            return x


def run(p, cell):
    kind = cell['kind']
    if kind == 'layer':
        a, where, lay = scene(cell['depth'])
        other = p.choice('two', LAYER if cell['depth'] < 2 else LAYER[:-1])
        early = p.choice('early', [True, False])
        one = reach(a, where, lay, cell['one'])
        two = reach(a, where, lay, other) if early else None
        p.check(one.tag is lay.tag, 'same-tag')
        what = p.choice('what', CHANGES)
        for i in range(2):
            if two is not None:
                look(two)
            x = p.real(f'x{i}', -1000, 1000, 10)
            n = p.int(f'n{i}', 0, 999)
            change(one, what, x, n, i)
            if not early:
                two = reach(a, where, lay, other)
            p.check(type(two) is type(lay), 'type')
            p.check(two.tag is lay.tag, 'same-tag')
            read(p, two, what, x, n, i)
            read(p, lay, what, x, n, i)
            read(p, one, what, x, n, i)
        p.check([type(y).__name__ for y in where] ==
                (['Rotate'] if cell['depth'] == 0 else ['Text']) +
                ['Circle', 'Text'], 'siblings')
    elif kind == 'value':
        values(p, cell)
    elif kind == 'inside':
        inside(p, cell)
    elif kind == 'place':
        place(p)
    elif kind == 'part':
        part(p)
    else:
        waypoint(p)


def look(c):
    """Looking at it beforehand shouldn't matter."""
    repr(c)
    for k, x in c.items():
        if k in ('radius', 'color', 'origin'):
            warm(x)
    return (c.desc, c.active, c.radius, c.color, c.origin, list(c))


def change(c, what, x, n, i):
    if what == 'desc':
        c.desc = ['the one', 'another'][n > 500]
    elif what == 'active':
        c.active = n > 500
    elif what == 'radius':
        c.radius = x
    elif what == 'item':
        c['radius'] = x
    elif what == 'color':
        c.color = (0.25, 0.5, 0.75, 1.0) if i else (0.5, 0.25, 1.0, 0.0)
    elif what == 'origin':
        c.origin = (x, n)
    else:
        c.radius.timeline[n] = x


def read(p, c, what, x, n, i):
    if what == 'desc':
        p.check(c.desc == ['the one', 'another'][n > 500], 'desc')
    elif what == 'active':
        p.check(c.active == (n > 500), 'active')
    elif what in ('radius', 'item'):
        p.check(p.close(c.radius.value, x, 1e-9), 'radius')
        p.check(p.close(c['radius'].value, x, 1e-9), 'radius')
    elif what == 'color':
        got = c.color.as_tuple()
        want = (0.25, 0.5, 0.75, 1.0) if i else (0.5, 0.25, 1.0, 0.0)
        for g, w in zip(got, want):
            p.check(p.close(g, w, 1e-6), 'color')
    elif what == 'origin':
        p.check(p.close(c.origin.x, x, 1e-9), 'origin')
        p.check(p.close(c.origin.y, n, 1e-9), 'origin')
    else:
        p.check(c.radius.is_animated, 'timeline')
        p.check(p.close(c.radius.timeline[n].value.value, x, 1e-9),
                'timeline')


def get(c, a, name, way):
    if way == 'attribute':
        return getattr(c, name)
    if way == 'name':
        return c[name]
    if way == 'items':
        return dict(c.items())[name]
    if way == 'values':
        return [x for k, x in zip(c.keys(), c.values()) if k == name][0]
    if way == 'found':
        return getattr(a.find(desc='the one'), name)
    return v.Value.from_tag(getattr(c, name).tag)


def values(p, cell):
    a, where, c = scene(1)
    t = cell['t']
    other = p.choice('other', [None, 'z_depth', 'feather'])
    if other is not None:
        c[other].is_animated = True
    way = p.choice('two', VALUE)
    early = p.choice('early', [True, False])
    # held on to in either order
    one = get(c, a, t, cell['one'])
    two = get(c, a, t, way) if early else None
    for i in range(2):
        if two is not None:
            warm(two)
        x = p.real(f'x{i}', -1000, 1000, 10)
        n = p.int(f'n{i}', 0, 999)
        val = {'radius': x, 'color': (0.25, (n > 500) * 0.5, 0.75, 1.0),
               'origin': (x, n), 'invert': n > 500}[t]
        one.value = val
        if not early:
            two = get(c, a, t, way)
        for r in [one, two]:
            if t == 'radius':
                p.check(p.close(r.value, x, 1e-9), 'value')
            elif t == 'color':
                p.check(p.close(r.as_tuple()[1], val[1], 1e-6), 'value')
            elif t == 'origin':
                p.check(p.close(r.x, x, 1e-9) & p.close(r.y, n, 1e-9),
                        'value')
            else:
                p.check(r.value == val, 'value')
            p.check(r.tag is getattr(c, t).tag, 'same-tag')


def inside(p, cell):
    """Layers which are put into a group."""
    a, where, g = scene(1, L.Group)
    other = p.choice('two', LAYER)
    one, two = [reach(a, where, g, w) for w in (cell['one'], other)]
    want = ['inside']
    p.check([x.desc for x in two] == want, 'inside')
    for i in range(3):
        c = L.Circle()
        c.desc = f'c{i}'
        k = p.choice(f'how{i}', [None, 0, -1, 'move'])
        if k == 'move':
            # one which is here leaves
            if len(want) < 2:
                continue
            y = two[0]
            where.append(y)
            want = want[1:]
        elif k is None:
            one.append(c)
            want = want + [c.desc]
        else:
            one.insert(k, c)
            k = k if k >= 0 else len(want) + k
            want = want[:k] + [c.desc] + want[k:]
        for r in (one, two, g):
            p.check([x.desc for x in r] == want, 'inside')
            p.check([x.desc for x in r.children] == want, 'inside')
            p.check([r[j].desc for j in range(len(want))] == want, 'inside')
            p.check(len(r) == len(want), 'inside')
            p.check([x.desc for x in r.find_all(True)] ==
                    list(reversed(want)), 'inside')
        if k is None:
            p.check(c.parent.tag is g.tag, 'inside-parent')


def part(p):
    """A group's transformation, and the parts of it."""
    a, where, g = scene(1, L.Group)
    x, y = [p.real(k, -1000, 1000, 10) for k in 'xy']
    ways = ['transformation', 'name', 'shortcut', 'found', 'get', 'value']

    def at_(way):
        return {'transformation': lambda: g.transformation.offset,
                'name': lambda: g['transformation']['offset'],
                'shortcut': lambda: g.offset,
                'found': lambda: a.find(desc='the one').offset,
                'get': lambda: g.transformation.get('offset'),
                'value': lambda: g.transformation.value['offset']}[way]()
    two, one = p.choice('two', ways), p.choice('one', ways)
    # whatever the other parts are like
    for k in p.choice('animated', [[], ['angle'], ['scale', 'skew_angle']]):
        g.transformation[k].is_animated = True
    r, s = warm(at_(two)), warm(at_(one))
    s.value = (x, y)
    for w in [r, s] + [at_(k) for k in ways]:
        p.check(p.close(w.x, x, 1e-9) & p.close(w.y, y, 1e-9), 'part')
    r.value = (y, x)
    for w in [r, s] + [at_(k) for k in ways]:
        p.check(p.close(w.x, y, 1e-9) & p.close(w.y, x, 1e-9), 'part')


def waypoint(p):
    """A timeline, through two objects for its layer."""
    a, where, c = scene(1)
    d = a.find(desc='the one')
    n, m = p.int('n', 0, 99), p.int('m', 0, 99)
    x, y = [p.real(k, -1000, 1000, 10) for k in 'xy']
    p.assume(n != m)
    c.radius.timeline[n] = x
    p.check(len(d.radius.timeline) == 1, 'waypoints')
    d.radius.timeline[m] = y
    p.check(len(c.radius.timeline) == 2, 'waypoints')
    p.check(p.close(c.radius.timeline[m].value.value, y, 1e-9), 'waypoints')
    p.check(p.close(d.radius.timeline[n].value.value, x, 1e-9), 'waypoints')
    del d.radius.timeline[n]
    p.check([u.time.frames for u in c.radius.timeline] == [m], 'waypoints')
    c.radius.is_animated = False
    p.check(p.close(d.radius.value, y, 1e-9), 'waypoints')
    p.check(not d.radius.is_animated, 'waypoints')


def place(p):
    """The group which a layer is in, wherever that group is."""
    a, where, c = scene(1)
    g = L.Group()
    g.desc = 'the other'
    how = p.choice('how', ['animation', 'group', 'detached', 'defs',
                           'param', 'deep'])
    if how == 'animation':
        a.append(g)
    elif how == 'group':
        where.append(g)
    elif how == 'deep':
        for i in range(2):
            h = L.Group()
            where.append(h)
            where = h
        where.append(g)
    elif how == 'defs':
        defs = soup_of('<defs></defs>').defs
        a.tag.append(defs)
        defs.append(g.tag)
    elif how == 'param':
        wrap = soup_of('<param name="sub"></param>').param
        where.tag.append(wrap)
        wrap.append(g.tag)
    g.append(c)
    x, y = [p.real(k, -1000, 1000, 10) for k in 'xy']
    n = p.int('n', 0, 9999)
    one = c.parent
    p.check(one.tag is g.tag, 'parent')
    p.check(g[0].parent.tag is g.tag, 'parent')
    p.check(g.find(desc='the one').parent.tag is g.tag, 'parent')
    one.amount = x
    p.check(p.close(g.amount.value, x, 1e-9), 'parent-field')
    g.amount = y
    p.check(p.close(one.amount.value, y, 1e-9), 'parent-field')
    one.desc = f'd{n}'
    p.check(g.desc == f'd{n}', 'parent-desc')
    new = L.Star()
    one.append(new)
    p.check([z.tag is w.tag for z, w in zip(g, [c, new])] == [True, True],
            'parent-inside')
    p.check(new.parent.tag is g.tag, 'parent')
    up = g.parent
    if how in ('group', 'deep', 'param'):
        p.check(up.tag is where.tag, 'grandparent')
    else:
        p.check(up is None, 'grandparent')
