"""Attributes of an animation."""
import os
from harness.lib import at, soup_of, T
import sangfroid
from sangfroid import layer as L

BOUNDS = (
    'each attribute, and each pair one after the other; sizes any integer '
    'up to 10^6, reals any multiple of 2^-10 up to 10^4, FPS 1 to 1000, end '
    'times of whole frames or seconds 0..99 as number, text or T, texts of '
    'up to 2 characters over a, space, &, <, quote, e-acute; in a new '
    'animation and in one with layers; saved and loaded in both formats')
ASSUMPTIONS = ['descriptions are not only white space']
NUMBERS = 'version xres yres gamma_r gamma_g gamma_b'
INTS = 'width height antialias'
STORED = {'gamma_r': 'gamma-r', 'gamma_g': 'gamma-g', 'gamma_b': 'gamma-b',
          'view_box': 'view-box', 'end_time': 'end-time'}
DEFAULTS = {'version': 1.2, 'width': 480, 'height': 270,
            'xres': 2834.645669, 'yres': 2834.645669, 'gamma_r': 1.0,
            'gamma_g': 1.0, 'gamma_b': 1.0, 'antialias': 1, 'fps': 24.0}


def names():
    return NUMBERS.split() + INTS.split() + [
        'fps', 'end_time', 'view_box', 'bgcolor', 'desc']


def cells(tier):
    ns = NUMBERS.split() + INTS.split() + [
        'fps', 'end_time', 'view_box', 'bgcolor', 'desc']
    out = []
    for n in ns:
        for start in ['new', 'layers', 'bare']:
            out.append({'kind': 'set', 'n': n, 'start': start})
        out.append({'kind': 'save', 'n': n})
    for i, n in enumerate(ns):
        for m in ns:
            if n != m and (tier == 'thorough' or n in (
                    'width', 'gamma_g', 'fps', 'end_time', 'desc')):
                out.append({'kind': 'two', 'n': n, 'm': m})
    out.append({'kind': 'bool'})
    out.append({'kind': 'time'})
    out.append({'kind': 'default'})
    out.append({'kind': 'derived'})
    out.append({'kind': 'inner'})
    return out


def begin(start):
    a = sangfroid.Animation()
    if start == 'layers':
        g = L.Group()
        g.append(L.Circle())
        a.append(g)
        a.append(L.Text('wombat'))
        a.desc = 'before'
    elif start == 'bare':
        # only what has to be there
        for k in list(a.tag.attrs):
            if k not in ('fps', 'begin-time', 'end-time'):
                del a.tag[k]
    return a


def make(p, n, i=''):
    """(what to set, what to expect)"""
    if n in NUMBERS.split():
        x = p.real('x' + i, -10000, 10000, 10)
        return x
    if n in INTS.split():
        return p.int('x' + i, 0, 1000000)
    if n == 'fps':
        return p.real('x' + i, 1, 1000, 3)
    if n == 'end_time':
        return p.int('x' + i, 0, 99)
    if n == 'view_box':
        return f"{p.int('x' + i, -99, 99)} 2.25 4 -2.25"
    if n == 'bgcolor':
        return f"0.{p.int('x' + i, 0, 9)} 0.25 0.75 1"
    s = p.text('x' + i, 0, 2, 'a &<"\u00e9')
    p.assume(s == '' or s.strip() != '')
    return s


def holds(p, a, n, x, label):
    got = getattr(a, n)
    if n in NUMBERS.split() or n == 'fps':
        p.check(isinstance(got, float), label + '-type')
        p.check(got == x, label)
    elif n in INTS.split():
        p.check(isinstance(got, int), label + '-type')
        p.check(got == x, label)
    elif n == 'end_time':
        p.check(isinstance(got, T), label + '-type')
        p.check(got.frames == x, label)
    else:
        p.check(isinstance(got, str), label + '-type')
        p.check(got == x, label)


def rest(a, n):
    """All there is but one attribute."""
    attrs = sorted((k, str(x)) for k, x in a.tag.attrs.items()
                   if k != STORED.get(n, n))
    inner = [str(c) for c in a.tag.contents
             if c.name is not None and not (n == 'desc' and
                                            c.name == 'desc')]
    return [attrs, inner, a.tag.name, a.name]


def run(p, cell):
    kind = cell['kind']
    if kind == 'set':
        n = cell['n']
        a = begin(cell['start'])
        before = rest(a, n)
        others = values(a, n)
        x = make(p, n)
        setattr(a, n, x)
        holds(p, a, n, x, 'read')
        holds(p, a, n, x, 'read-again')
        p.check(rest(a, n) == before, 'rest')
        p.check(values(a, n) == others, 'others')
        stored(p, a, n, x)
        y = make(p, n, '2')
        setattr(a, n, y)
        holds(p, a, n, y, 'replaced')
        p.check(rest(a, n) == before, 'replaced-rest')
        b = sangfroid.Animation()
        p.check(values(b, None) == values(sangfroid.Animation(), None),
                'later')
    elif kind == 'save':
        n = cell['n']
        a = begin('layers')
        before = rest(a, n)
        x = make(p, n)
        setattr(a, n, x)
        ext = p.choice('ext', ['sif', 'sifz'])
        name = os.path.join(p.tmpdir(), 'x.' + ext)
        a.save(name)
        b = sangfroid.Animation(name)
        holds(p, b, n, x, 'loaded')
        p.check(rest(b, n)[0] == before[0], 'loaded-rest')
        p.check(len(b.tag.find_all('layer')) == 3, 'loaded-layers')
    elif kind == 'two':
        n, m = cell['n'], cell['m']
        a = begin('layers')
        x, y = make(p, n), make(p, m, '2')
        if n == 'fps' and m == 'end_time':
            x = p.choice('fps', [24.0, 25.0, 12.5, 30.0])
        setattr(a, n, x)
        setattr(a, m, y)
        if n == 'end_time' and m == 'fps':
            # it's in seconds, if it can be
            p.check(a.end_time.frames >= 0, 'end-after-fps')
        else:
            holds(p, a, n, x, 'first')
        holds(p, a, m, y, 'second')
    elif kind == 'bool':
        a = begin('layers')
        n = p.choice('n', ['active', 'exclude_from_rendering'])
        before = rest(a, n)
        x = p.choice('x', [True, False])
        setattr(a, n, x)
        p.check(getattr(a, n) is x, 'bool')
        p.check(rest(a, n) == before, 'bool-rest')
    elif kind == 'time':
        a = begin('new')
        fps = p.choice('fps', [24.0, 25.0, 12.5])
        a.fps = fps
        how = p.choice('how', ['frames', 'seconds', 'T', 'mixed', 'back'])
        n = p.int('n', 1, 99)
        if how == 'frames':
            a.end_time = f'{n}f'
            want = n
        elif how == 'seconds':
            a.end_time = f'{n}s'
            want = n * fps
        elif how == 'T':
            a.end_time = T(n, ref=a.tag)
            want = n
        elif how == 'mixed':
            f = p.int('f', 0, 11)
            a.end_time = f'{n}s {f}f'
            want = n * fps + f
        else:
            # from the end
            last = a.end_time.frames
            p.assume(n <= last)
            a.end_time = -n
            want = last + 1 - n
        p.check(p.close(a.end_time.frames, want, 1e-9), 'end-' + how)
        if how != 'back' and fps != 12.5:
            p.check(a.framecount == int(want) + 1, 'framecount-' + how)
        p.check(a.fps == fps, 'end-fps')
        p.check(a.begin_time.frames == 0, 'end-begin')
    elif kind == 'inner':
        # groups' canvases can have descriptions of their own
        a = begin('layers')
        own = p.choice('own', [True, False])
        if not own:
            a.tag.find('desc').decompose()
        g = a[0]
        inner = soup_of('<desc>inner</desc>').find('desc').extract()
        canvas = g.tag.find('canvas')
        canvas.append(inner)
        if p.choice('first', [True, False]):
            a.tag.insert(0, g.tag.extract())
        p.check(a.desc == ('before' if own else ''), 'inner-read')
        x = make(p, 'desc')
        a.desc = x
        p.check(a.desc == x, 'inner-set')
        p.check(inner.text == 'inner', 'inner-kept')
        ds = [c for c in a.tag.contents if c.name == 'desc']
        p.check(len(ds) == 1, 'inner-stored')
        p.check(ds[0].text == x, 'inner-stored')
    elif kind == 'default':
        a = begin('bare')
        n = p.choice('n', sorted(DEFAULTS))
        p.check(getattr(a, n) == DEFAULTS[n], 'default')
        x = make(p, n)
        setattr(a, n, x)
        holds(p, a, n, x, 'default-replaced')
        b = begin('bare')
        p.check(getattr(b, n) == DEFAULTS[n], 'default-kept')
    else:
        a = begin('layers')
        w, h = p.int('w', 1, 10000), p.int('h', 1, 10000)
        a.width = w
        a.height = h
        p.check(a.size == (w, h), 'size')
        v = [p.int(f'v{i}', -9, 9) for i in range(4)]
        a.view_box = ' '.join(f'{x}.5' if x >= 0 else f'{x}' for x in v)
        want = [x + 0.5 if x >= 0 else x for x in v]
        p.check(len(a.viewbox) == 4, 'viewbox')
        for x, y in zip(a.viewbox, want):
            p.check(x == y, 'viewbox')
        c = [p.int(f'c{i}', 0, 9) for i in range(2)]
        a.bgcolor = f'0.{c[0]} 0.{c[1]} 0.25 0.125'
        got = a.background.as_tuple()
        for x, y in zip(got, [c[0] / 10, c[1] / 10, 0.25, 0.125]):
            p.check(p.close(x, y, 1e-6), 'background')


def values(a, n):
    """The values of all attributes but one."""
    out = []
    for k in names():
        if k == n or (n == 'fps' and k == 'end_time'):
            continue
        x = getattr(a, k)
        out.append((k, x.frames if k == 'end_time' else x))
    out.append(a.begin_time.frames)
    return out


def stored(p, a, n, x):
    """Where Synfig looks for it."""
    if n == 'desc':
        ds = a.tag.find_all('desc')
        p.check(len(ds) == 1, 'stored-once')
        p.check(ds[0].parent is a.tag, 'stored-where')
        p.check(ds[0].text == x, 'stored')
        return
    k = STORED.get(n, n)
    p.check(k in a.tag.attrs, 'stored-name')
    for j in a.tag.attrs:
        p.check('_' not in j, 'stored-no-other')
    s = str(a.tag[k])
    if n in NUMBERS.split() or n == 'fps':
        p.check(float(s) == x, 'stored')
    elif n in INTS.split():
        p.check(int(s) == x, 'stored')
    elif n == 'end_time':
        p.check(T(s, ref=a.tag).frames == x, 'stored')
    else:
        p.check(s == x, 'stored')
