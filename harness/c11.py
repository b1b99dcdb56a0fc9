"""Waypoints: time, value, and the interpolation on each side."""
from harness.lib import at, reload, soup_of, T
import sangfroid
import sangfroid.value as v
from sangfroid.value import Waypoint

BOUNDS = (
    'every pair of interpolations by either name; every text of up to 4 '
    'characters over a-z and _, and every name with any one character '
    'replaced by any other, or with one added; times any multiple of 1/8 '
    'frame up to 2000 (whole frames 0..99 in files), at 24 and 25 FPS and '
    'without a document; values any multiple of 2^-10 up to +-1000; '
    'timelines of 2 waypoints')
ASSUMPTIONS = []
OWN = ['tcb', 'clamped', 'constant', 'linear', 'ease']
NAMES = OWN + ['auto', 'halt']
LETTERS = 'abcdefghijklmnopqrstuvwxyz_ -ABT'


def cells(tier):
    out = []
    for how in ['new', 'set']:
        out.append({'kind': 'pair', 'how': how})
        for side in ['before', 'after']:
            for n in range(0, 5 if tier == 'thorough' else 4):
                out.append({'kind': 'text', 'how': how, 'side': side,
                            'len': n})
            for name in NAMES + ['undefined']:
                out.append({'kind': 'near', 'how': how, 'side': side,
                            'name': name})
    for how in ['setitem', 'add', 'iadd', 'assign', 'list']:
        for where in ['doc', 'doc25', 'detached']:
            out.append({'kind': 'store', 'how': how, 'where': where})
    out.append({'kind': 'file'})
    out.append({'kind': 'badfile'})
    out.append({'kind': 'change'})
    out.append({'kind': 'order', 'fps': '24'})
    out.append({'kind': 'order', 'fps': None})
    out.append({'kind': 'bad'})
    for how in ['int', 'float', 'frames', 'seconds', 'back', 'T']:
        out.append({'kind': 'when', 'how': how})
    for t in ['Integer', 'Bool', 'String', 'X_Y', 'Color', 'Angle']:
        out.append({'kind': 'types', 't': t})
    return out


def own_name(n):
    if n == 'auto':
        return 'tcb'
    if n == 'halt':
        return 'ease'
    return n


def run(p, cell):
    kind = cell['kind']
    if kind == 'when':
        when(p, cell['how'])
    elif kind == 'pair':
        b = p.choice('before', NAMES)
        a = p.choice('after', NAMES)
        w = made(cell['how'], b, a)
        p.check(w.before == own_name(b), 'before')
        p.check(w.after == own_name(a), 'after')
        p.check(w.tag['before'] == own_name(b), 'saved-before')
        p.check(w.tag['after'] == own_name(a), 'saved-after')
        p.check(p.outcome(lambda: str(w))[0] == 'ok', 'printable')
    elif kind in ('text', 'near'):
        text = words(p, cell)
        before, after = 'linear', 'ease'
        side = cell['side']
        good = any([text == n for n in NAMES])
        w = Waypoint(T(3), v.Real(1.5), before, after)
        if cell['how'] == 'set':
            r = p.outcome(lambda: setattr(w, side, text))
        else:
            d = {'before': before, 'after': after}
            d[side] = text
            r = p.outcome(lambda: Waypoint(T(3), v.Real(1.5), **d))
            if r[0] == 'ok':
                w = r[1]
        if good:
            p.check(r[0] == 'ok', 'accepted')
            p.check(getattr(w, side) == own_name(text), 'named')
            if side == 'before':
                p.check(w.after == after, 'other-side')
            else:
                p.check(w.before == before, 'other-side')
        else:
            p.check(r[0] == 'raise', 'refused')
            p.check(isinstance(r[1], ValueError), 'refused-type')
            p.check(w.before == before, 'kept')
            p.check(w.after == after, 'kept')
    elif kind == 'store':
        store(p, cell)
    elif kind == 'file':
        infile(p)
    elif kind == 'badfile':
        bad(p)
    elif kind == 'change':
        # changing a waypoint which has been read, and storing it again
        r = v.Real(1.5)
        f = p.int('f', 0, 999)
        b = p.choice('before', NAMES)
        a = p.choice('after', NAMES)
        r.timeline[f] = 2.5
        r.timeline[1000] = 3.5
        w = r.timeline[f]
        w.before = b
        w.after = a
        r.timeline += w
        p.check(len(r.timeline) == 2, 'replaced')
        w = r.timeline[f]
        p.check(w.before == own_name(b), 'changed-before')
        p.check(w.after == own_name(a), 'changed-after')
        p.check(w.value.value == 2.5, 'same-value')
        w = r.timeline[1000]
        p.check((w.before == 'clamped') & (w.after == 'clamped'),
                'other-waypoint')
    elif kind == 'order':
        f = p.real('f', -2000, 2000, 3)
        g = p.real('g', -2000, 2000, 3)
        a = Waypoint(at(f, cell['fps']), v.Real(1.5), 'linear', 'linear')
        b = Waypoint(at(g, cell['fps']), v.Real(p.int('x', 0, 3)), 'tcb')
        p.check((a < b) == (f < g), 'lt')
        p.check((a > b) == (f > g), 'gt')
        p.check((a <= b) == (f <= g), 'le')
        p.check((a >= b) == (f >= g), 'ge')
        p.check((a == b) == (f == g), 'eq')
        s = sorted([a, b])
        p.check(s[0].time.frames <= s[1].time.frames, 'sorted')
        o = p.choice('o', [None, 3, 'x', v.Real(1.5)])
        p.check(not (a == o), 'other-type')
    elif kind == 'bad':
        x = p.choice('x', [None, 3, 'x', 1.5, T(3)])
        p.check(p.raises(lambda: Waypoint(T(3), x), TypeError) is not None,
                'value-type')
        r = v.Real(1.5)
        r.is_animated = True
        p.check(p.raises(lambda: Waypoint(T(3), r), ValueError) is not None,
                'animated-value')
        t = p.choice('t', [None, [], {}, v.Real(2.0)])
        p.check(p.raises(lambda: Waypoint(t, v.Real(1.5)), TypeError)
                is not None, 'time-type')
        f = p.int('f', 0, 9999)
        p.check(Waypoint(f, v.Real(1.5)).time.frames == f, 'int-time')
        p.check(Waypoint(f'{f}f', v.Real(1.5)).time.frames == f, 'text-time')
    else:
        types(p, cell)


def made(how, b, a):
    if how == 'new':
        return Waypoint(T(3), v.Real(1.5), b, a)
    w = Waypoint(T(3), v.Real(1.5))
    w.before = b
    w.after = a
    return w


def words(p, cell):
    if cell['kind'] == 'text':
        return p.text('c', cell['len'], cell['len'], LETTERS)
    name = cell['name']
    i = p.choice('at', list(range(len(name) + 1)))
    c = p.char('c', LETTERS)
    if p.choice('insert', [True, False]):
        return name[:i] + c + name[i:]
    return name[:i] + c + name[i + 1:]


def store(p, cell):
    fps = {'doc': '24', 'doc25': '25', 'detached': None}[cell['where']]
    c = sangfroid.layer.Circle()
    if fps:
        a = sangfroid.Animation()
        a.fps = int(fps)
        a.append(c)
    b = p.choice('b', OWN)
    a = p.choice('a', ['auto', 'linear'])
    names = [(b, a), (p.choice('b1', ['ease', 'constant']), 'halt')]
    if fps:
        f = p.real('f', 0, 2000, 3)
        g = p.real('g', 0, 2000, 3)
    else:
        f = p.int('f', 0, 9)
        g = p.int('g', 0, 9)
    p.assume(f != g)
    x = p.real('x', -1000, 1000, 10)
    y = p.real('y', -1000, 1000, 10)
    ws = [Waypoint(at(f, fps), v.Real(x), *names[0]),
          Waypoint(at(g, fps), v.Real(y), *names[1])]
    how = cell['how']
    if how == 'setitem':
        c.radius.timeline[f] = ws[0]
        c.radius.timeline[g] = ws[1]
    elif how == 'add':
        c.radius.timeline.add(ws[0])
        c.radius.timeline.add(ws[1])
        # there's a waypoint at zero too if the value wasn't animated
    elif how == 'iadd':
        tl = c.radius.timeline
        tl += ws[1]
        tl += ws[0]
    elif how == 'assign':
        c.radius.timeline = ws
    else:
        c.radius.timeline.add(ws)
    for k, z, (b, a) in ((f, x, names[0]), (g, y, names[1])):
        w = c.radius.timeline[k]
        p.check(w.time.frames == k, 'time')
        p.check(p.close(w.value.value, z, 1e-9), 'value')
        p.check(w.before == b, 'before')
        p.check(w.after == own_name(a), 'after')
        tag = [t for t in c.radius.tag.find_all('waypoint')
               if T(str(t['time']), ref=t).frames == k] if fps is None else []
        for t in tag:
            p.check(t['before'] == b, 'saved-before')
            p.check(t['after'] == own_name(a), 'saved-after')


def infile(p):
    ws = ''
    got = []
    for i in range(2):
        f = p.int(f'f{i}', 0, 99)
        if got:
            p.assume(f != got[0][0])
        b = p.choice(f'b{i}', NAMES if i == 0 else ['halt'])
        a = p.choice(f'a{i}', NAMES if i == 1 else ['auto'])
        x = p.int(f'x{i}', 0, 9)
        ws += (f'<waypoint time="{f}f" after="{a}" before="{b}">\n'
               f'<integer value="{x}"/>\n</waypoint>')
        got.append((f, b, a, x))
    r = v.Value.from_tag(
        soup_of(f'<animated type="integer">{ws}</animated>').find())
    p.check(len(r.timeline) == 2, 'length')
    for s in (r, reload(r)):
        for f, b, a, x in got:
            w = s.timeline[f]
            p.check(w.before == own_name(b), 'file-before')
            p.check(w.after == own_name(a), 'file-after')
            p.check(w.value.value == x, 'file-value')


def bad(p):
    b = p.choice('b', ['undefined', 'wombat', 'tcb'])
    a = p.choice('a', ['undefined', '', 'linear'])
    inner = p.choice('inner', [
        '<real value="1.5"/>', '', '<real value="1"/><real value="2"/>',
        '<animated type="real"/>', '<integer value="1"/>'])
    name = p.choice('name', ['waypoint', 'wombat'])
    r = v.Value.from_tag(soup_of(
        f'<animated type="real"><{name} time="0f" before="{b}" after="{a}">'
        f'{inner}</{name}></animated>').find())
    good = (b == 'tcb' and a == 'linear' and name == 'waypoint' and
            inner == '<real value="1.5"/>')
    if good:
        p.check(r.timeline[0].value.value == 1.5, 'read')
    else:
        # (NameError is what some messages raise)
        p.check(p.raises(lambda: list(r.timeline), ValueError, NameError)
                is not None, 'refused')


def types(p, cell):
    cls = getattr(v, cell['t'])
    vals = {'Integer': [3, 4], 'Bool': [True, False], 'String': ['a', 'b c'],
            'X_Y': [(1.5, 2.5), (-3.5, 4.0)],
            'Color': [(1.0, 0.5, 0.25, 1.0), (0.0, 0.5, 0.75, 1.0)],
            'Angle': [30.0, -12.5]}[cell['t']]
    f = p.int('f', 0, 999)
    b = p.choice('b', ['auto', 'constant', 'linear'])
    a = p.choice('a', ['halt', 'clamped', 'tcb'])
    i = p.choice('i', [0, 1])
    w = Waypoint(at(f), cls(vals[i]), b, a)
    r = cls(vals[0])
    r.timeline = [w]
    s = reload(r)
    p.check(s.is_animated, 'animated')
    p.check(len(s.timeline) == 1, 'length')
    w = s.timeline[f]
    p.check(w.time.frames == f, 'time')
    p.check(isinstance(w.value, cls), 'type')
    p.check(w.value == vals[i], 'value')
    p.check((w.before == own_name(b)) & (w.after == own_name(a)),
            'interpolations')


def when(p, how):
    """Every way of saying when a new waypoint is."""
    a = sangfroid.Animation()
    a.fps = p.choice('fps', [24.0, 25.0, 12.0])
    a.end_time = '120f'
    c = sangfroid.layer.Circle()
    a.append(c)
    ref = p.choice('ref', [a, c, c.radius, c.radius.tag, a.tag])
    n = p.int('n', 0, 120)
    want = n
    if how == 'seconds':
        t = f'{n}s'
        want = n * a.fps
    elif how == 'back':
        t = n - 121
    else:
        t = {'int': n, 'float': float(n), 'frames': f'{n}f', 'T': T(n)}[how]
    w = Waypoint(t, v.Real(1.5), ref=ref)
    p.check(isinstance(w.time, T), 'when-type')
    p.check(w.time.frames == want, 'when')
    c.radius.timeline.add(w)
    p.check(c.radius.timeline[want].value.value == 1.5, 'when-stored')
    if how in ('int', 'float', 'frames'):
        w = Waypoint(t, v.Real(1.5))
        p.check(w.time.frames == want, 'when-alone')
