"""Ts are ordered, compared and hashed as the instants they are."""
from harness.lib import doc, at, T

BOUNDS = ('pairs and triples of frame counts, each any multiple of 1/64 '
          'frame between -100000 and 100000, or of 2^-20 frame up to '
          '+-10000000; FPS of each 24, 25, 12, 12.5, '
          '23.976 or unknown; seconds for FPS 24, 12.5, 0.5, 60, 29.97; '
          'comparison with ints, floats and other types')
ASSUMPTIONS = []


def cells(tier):
    out = []
    for a in ['24', '25', None]:
        for b in ['24', '25', None]:
            out.append({'kind': 'pair', 'a': a, 'b': b})
    out.append({'kind': 'triple', 'fps': '24'})
    out.append({'kind': 'triple', 'fps': None})
    out.append({'kind': 'number', 'fps': '24'})
    out.append({'kind': 'number', 'fps': None})
    out.append({'kind': 'set', 'fps': '24'})
    out.append({'kind': 'other'})
    for a, b in [('24', '24'), (None, None), ('25', None)]:
        out.append({'kind': 'pair', 'a': a, 'b': b, 'fine': True})
    out.append({'kind': 'number', 'fps': '24', 'fine': True})
    out.append({'kind': 'set', 'fps': None, 'fine': True})
    for a, b in [('12.5', '12'), ('12', '12.5'), ('12.5', '12.5'),
                 ('23.976', '24'), ('23.976', '23.976')]:
        out.append({'kind': 'pair', 'a': a, 'b': b})
    for fps in ['24', '12.5', '0.5', '60', '29.97', None]:
        out.append({'kind': 'seconds', 'fps': fps})
    return out


def some(p, name, fps, fine=False):
    f = p.real(name, -10**7, 10**7, 20) if fine else \
        p.real(name, -100000, 100000, 6)
    t = at(f, fps)
    p.assume(t.frames == f)
    return f, t


def run(p, cell):
    kind = cell['kind']
    if kind == 'pair':
        pair(p, cell)
    elif kind == 'triple':
        fs, ts = [], []
        for i in 'abc':
            f, t = some(p, i, cell['fps'])
            fs.append(f)
            ts.append(t)
        s = sorted(ts)
        p.check((s[0].frames <= s[1].frames) & (s[1].frames <= s[2].frames),
                'sorted')
        p.check(sum([t.frames for t in s]) == sum(fs), 'sorted-keeps-all')
        p.check(min(ts).frames == s[0].frames, 'min')
        p.check(max(ts).frames == s[2].frames, 'max')
    elif kind == 'number':
        f, t = some(p, 'a', cell['fps'], cell.get('fine'))
        n = p.int('n', -100000, 100000)
        x = some(p, 'x', None, cell.get('fine'))[0]
        for v in (n, x):
            p.check((t == v) == (f == v), 'equals-number')
            p.check((t < v) == (f < v), 'before-number')
            p.check((t > v) == (f > v), 'after-number')
            p.check((t <= v) == (f <= v), 'not-after-number')
        p.check(float(t) == f, 'float')
        i = int(t)
        p.check((i <= f) & (f - i < 1) if f >= 0 else
                (i >= f) & (i - f < 1), 'int')
    elif kind == 'seconds':
        f, t = some(p, 'a', cell['fps'])
        if cell['fps'] is None:
            got = p.outcome(lambda: t.seconds)
            if f == 0:
                p.check(got == ('ok', 0.0), 'no-seconds')
            else:
                p.check(got[0] == 'raise' and
                        isinstance(got[1], ValueError), 'seconds-refused')
            p.check(t.fps is None, 'fps')
        else:
            r = float(cell['fps'])
            p.check(p.close(t.seconds * r, f, 1e-6), 'seconds')
            p.check(p.close(t.seconds, f / r, 1e-6), 'seconds')
            p.check(t.fps == r, 'fps')
            if f == 0:
                p.check(t.seconds == 0, 'no-seconds')
    elif kind == 'set':
        f, t = some(p, 'a', cell['fps'], cell.get('fine'))
        g, u = some(p, 'b', cell['fps'], cell.get('fine'))
        d = {t: 'a'}
        d[u] = 'b'
        p.check((len(d) == 1) == (f == g), 'dict-keys')
        p.check(d[u] == 'b', 'dict-lookup')
        p.check((u in {t: 1}) == (f == g), 'dict-contains')
    else:
        f, t = some(p, 'a', '24')
        o = p.choice('other', [None, 'x', '0f', [], (), {}, object()])
        p.check(not (t == o), 'not-equal-to-other-type')
        p.check(t != o, 'differs-from-other-type')


def pair(p, cell):
    f, t = some(p, 'a', cell['a'], cell.get('fine'))
    g, u = some(p, 'b', cell['b'], cell.get('fine'))
    clash = (cell['a'] is not None and cell['b'] is not None and
             cell['a'] != cell['b'])
    if clash and f != 0 and g != 0:
        for i, fn in enumerate([lambda: t == u, lambda: t < u,
                                lambda: t > u, lambda: t <= u,
                                lambda: t != u]):
            p.check(p.raises(fn, ValueError) is not None,
                    'different-fps-refused')
        return
    p.check((t == u) == (f == g), 'equal')
    p.check((t != u) == (f != g), 'not-equal')
    p.check((t < u) == (f < g), 'before')
    p.check((t > u) == (f > g), 'after')
    p.check((t <= u) == (f <= g), 'not-after')
    p.check((t >= u) == (f >= g), 'not-before')
    p.check((u > t) == (t < u), 'converse')
    if f == g:
        p.check(hash(t) == hash(u), 'hash')
