"""A timeline is a map from instants to waypoints, in order of time."""
from harness.lib import at, reload, soup_of, T
import sangfroid
import sangfroid.value as v
from sangfroid.value import Waypoint

BOUNDS = ('sequences of 3 (thorough 4) operations from set, add, +=, delete; '
          'each time any multiple of 1/8 frame in 0..2000 (any whole frame '
          '0..99 where it is read back from text), each value any '
          'multiple of 1/1024 up to 100; 24 and 25 FPS and values outside a '
          'document; files with 2 or 3 (thorough 4) waypoints in any order '
          'at any whole frame 0..9999, written in frames or in seconds and '
          'frames; Real, Integer, Bool, String, Vector and Color values; the '
          'value and its timeline fetched anew each time, or held on to')
ASSUMPTIONS = ['a list given to add() has no two waypoints of one instant; of '
               'one which is merged with +=, the last counts']


def cells(tier):
    out = []
    ops = ['set', 'add', 'iadd', 'del']
    for a in ['set', 'add', 'iadd']:
        for b in ops:
            for c in ops:
                out.append({'kind': 'ops', 'ops': [a, b, c], 'where': 'doc'})
    for seq in [['set', 'set', 'set'], ['add', 'iadd', 'del'],
                ['iadd', 'set', 'add'], ['set', 'del', 'set']]:
        out.append({'kind': 'ops', 'ops': seq, 'where': 'detached'})
        out.append({'kind': 'ops', 'ops': seq, 'where': 'doc25'})
    if tier == 'thorough':
        for a in ['set', 'iadd']:
            for b in ops:
                for c in ops:
                    for d in ops:
                        out.append({'kind': 'ops', 'ops': [a, b, c, d],
                                    'where': 'doc'})
    for seq in [['set', 'set', 'set'], ['set', 'set', 'del'],
                ['add', 'set', 'iadd'], ['set', 'del', 'set'],
                ['iadd', 'set', 'iadd'], ['add', 'del', 'add']]:
        out.append({'kind': 'ops', 'ops': seq, 'where': 'doc',
                    'held': True})
    out.append({'kind': 'two'})
    for where in ['doc', 'detached']:
        for op in ops:
            out.append({'kind': 'many', 'where': where, 'op': op})
    for where in ['doc', 'detached']:
        for n in [0, 1, 2]:
            out.append({'kind': 'merge', 'where': where, 'n': n})
    for how in ['int', 'float', 'str', 'T', 'Tfps', 'neg']:
        out.append({'kind': 'delete', 'how': how})
    out.append({'kind': 'list', 'where': 'doc'})
    out.append({'kind': 'list', 'where': 'detached'})
    for n in [2, 3] + ([4] if tier == 'thorough' else []):
        for unit in ['f', 'sf'] if n == 2 or tier == 'thorough' else ['f']:
            out.append({'kind': 'file', 'n': n, 'unit': unit})
    for how in ['list', 'dict', 'timeline']:
        out.append({'kind': 'assign', 'how': how})
    for how in ['int', 'float', 'str', 'T', 'Tfps', 'neg']:
        out.append({'kind': 'lookup', 'how': how})
    for t in ['Integer', 'Bool', 'String', 'X_Y', 'Color', 'Angle']:
        out.append({'kind': 'types', 't': t})
    for t in ['Real', 'Integer', 'Bool', 'String', 'X_Y', 'Color', 'Angle']:
        out.append({'kind': 'empty', 't': t})
    for where in ['doc', 'doc25', 'detached']:
        out.append({'kind': 'early', 'where': where})
    out.append({'kind': 'equal'})
    out.append({'kind': 'mixed'})
    out.append({'kind': 'badtype'})
    for where in ['doc', 'detached', 'doc25']:
        for how in ['same', 'other', 'twice']:
            out.append({'kind': 'move', 'where': where, 'how': how})
    for n in [2, 3]:
        out.append({'kind': 'file', 'n': n, 'unit': 'fraction'})
    return out


def holder(where):
    """Something with a Real called radius; and the FPS to use."""
    c = sangfroid.layer.Circle()
    fps = None
    if where != 'detached':
        a = sangfroid.Animation()
        fps = '24'
        if where == 'doc25':
            a.fps = 25
            fps = '25'
        a.append(c)
    c.radius = 3.25
    return c, fps


def check_all(p, c, model, label, stored=True, held=None):
    """
    model: list of (frames, value), in order of time.
    stored: whether it was stored by the library, and not by hand.
    held: a value and its timeline, from before.
    """
    r = c.radius
    tl = r.timeline
    if held:
        r, tl = held
    p.check(r.is_animated == bool(model), label + '-animated')
    p.check(len(tl) == len(model), label + '-length')
    got = list(tl)
    p.check(len(got) == len(model), label + '-length')
    for w, (f, x) in zip(got, model):
        p.check(w.time.frames == f, label + '-order')
        p.check(p.close(w.value.value, x, 1e-9), label + '-value')
    for f, x in model:
        w = tl[f]
        p.check(w.time.frames == f, label + '-lookup')
        p.check(p.close(w.value.value, x, 1e-9), label + '-lookup-value')
    ks, vs, its = tl.keys(), tl.values(), tl.items()
    p.check(len(ks) == len(model), label + '-keys')
    p.check(len(vs) == len(model), label + '-values')
    p.check(len(its) == len(model), label + '-items')
    p.check(bool(tl) == bool(model), label + '-truth')
    if stored:
        for k, w, (k2, w2), (f, x) in zip(ks, vs, its, model):
            p.check((k.frames == f) & (w.time.frames == f) &
                    (k2.frames == f) & (w2.time.frames == f),
                    label + '-stored-order')
            p.check(p.close(w.value.value, x, 1e-9) &
                    p.close(w2.value.value, x, 1e-9),
                    label + '-stored-value')


def many(p, cell):
    """More waypoints than have one digit."""
    c, fps = holder(cell['where'])
    model = []
    for i in [5, 3, 12, 0, 8, 1, 11, 2, 10, 4, 9, 7]:
        c.radius.timeline[i * 30] = i + 0.5
        model = put(model, i * 30, i + 0.5)
    check_all(p, c, model, 'many')
    f = p.int('f', 0, 13) * 30
    known = [y for g, y in model if g == f]
    tl = c.radius.timeline
    if cell['op'] == 'set':
        tl[f] = 99.25
        model = put(model, f, 99.25)
    elif cell['op'] == 'iadd':
        tl += Waypoint(at(f, fps), v.Real(99.25))
        model = put(model, f, 99.25)
    elif cell['op'] == 'add':
        w = Waypoint(at(f, fps), v.Real(99.25))
        if known:
            p.check(p.raises(lambda: tl.add(w), ValueError) is not None,
                    'many-refused')
        else:
            tl.add(w)
            model = put(model, f, 99.25)
    elif known:
        del tl[f]
        model = [(g, y) for g, y in model if not (g == f)]
    else:
        p.check(p.raises(lambda: tl.__delitem__(f), KeyError) is not None,
                'many-absent')
    check_all(p, c, model, 'many')


def put(model, f, x):
    """model with x at f"""
    out = [(g, y) for g, y in model if not (g == f)]
    i = 0
    while i < len(out) and out[i][0] < f:
        i += 1
    return out[:i] + [(f, x)] + out[i:]


def run(p, cell):
    kind = cell['kind']
    if kind == 'ops':
        ops(p, cell)
    elif kind == 'list':
        c, fps = holder(cell['where'])
        fs = [p.real(f'f{i}', 0, 2000, 3) for i in range(3)]
        p.assume((fs[0] != fs[1]) & (fs[1] != fs[2]) & (fs[0] != fs[2]))
        c.radius.timeline.add([Waypoint(at(f, fps), v.Real(i + 0.5))
                               for i, f in enumerate(fs)])
        model = []
        for i, f in enumerate(fs):
            model = put(model, f, i + 0.5)
        check_all(p, c, model, 'list')
    elif kind == 'early':
        early(p, cell)
    elif kind == 'delete':
        delete(p, cell)
    elif kind == 'many':
        many(p, cell)
    elif kind == 'merge':
        merge(p, cell)
    elif kind == 'file':
        infile(p, cell)
    elif kind == 'assign':
        assign(p, cell)
    elif kind == 'lookup':
        lookup(p, cell)
    elif kind == 'types':
        types(p, cell)
    elif kind == 'move':
        move(p, cell)
    elif kind == 'two':
        two(p)
    elif kind == 'empty':
        empty(p, cell)
    elif kind == 'equal':
        c, fps = holder('doc')
        d, _ = holder('doc')
        f, g, h = [p.int(x, 0, 99) for x in 'fgh']
        p.assume((f != g) & (f != h))
        for x in (f, g):
            c.radius.timeline[x] = 2.5
        for x in (f, h):
            d.radius.timeline[x] = 2.5
        if g == h:
            p.check(c.radius.timeline == d.radius.timeline, 'equal')
            p.check(not (c.radius.timeline != d.radius.timeline), 'equal')
        else:
            p.check(not (c.radius.timeline == d.radius.timeline), 'unequal')
        d.radius.timeline[100] = 2.5
        p.check(not (c.radius.timeline == d.radius.timeline), 'longer')
    elif kind == 'mixed':
        other = p.choice('other', ['<integer value="3"/>', '<angle value="3"/>',
                                   '<string>3</string>'])
        n = p.int('n', 0, 9)
        text = [f'<waypoint time="{n}f" before="linear" after="linear">'
                f'{other}</waypoint>',
                '<waypoint time="20f" before="linear" after="linear">'
                '<real value="3"/></waypoint>']
        if p.choice('first', [True, False]):
            text.reverse()
        r = v.Value.from_tag(soup_of('<animated type="real">' + text[0] +
                                     text[1] + '</animated>').find())
        p.check(p.raises(lambda: list(r.timeline), ValueError, TypeError)
                is not None, 'mixed')
    else:
        c, fps = holder('doc')
        c.radius.timeline[3] = 1.5
        before = str(c.tag)
        bad = p.choice('bad', [None, 7, 'wombat', [None], [7], ()])
        p.check(p.raises(lambda: c.radius.timeline.add(bad), TypeError)
                is not None, 'add-type')
        p.check(p.raises(lambda: setattr(c.radius, 'timeline', bad),
                         TypeError) is not None, 'timeline-type')
        p.check(str(c.tag) == before, 'rejected-unchanged')
        o = p.choice('o', [v.Color(0.5, 0.5, 0.5), v.Integer(3),
                           v.String('x'), v.X_Y(1.0, 2.0), v.Angle(3.0)])
        n = p.int('n', 4, 9)
        w = Waypoint(at(n, fps), o)
        good = Waypoint(at(12, fps), v.Real(2.5))
        for fn in [lambda: c.radius.timeline.add(w),
                   lambda: c.radius.timeline.add([good, w]),
                   lambda: c.radius.timeline.__iadd__(w),
                   lambda: c.radius.timeline.__setitem__(n, w),
                   lambda: setattr(c.radius, 'timeline', [w, good])]:
            p.check(p.raises(fn, TypeError) is not None, 'value-type')
            p.check(str(c.tag) == before, 'value-type-unchanged')
        t = p.choice('t', [None, [], {}, object()])
        p.check(p.raises(lambda: c.radius.timeline[t], TypeError)
                is not None, 'lookup-type')


def ops(p, cell):
    c, fps = holder(cell['where'])
    model = []
    static = 3.25
    r0 = c.radius
    held = (r0, r0.timeline) if cell.get('held') else None
    if held:
        check_all(p, c, model, 'before', held=held)
    for i, op in enumerate(cell['ops']):
        if cell['where'] == 'detached':
            # these are read back from text
            f = p.int(f'f{i}', 0, 99)
        else:
            f = p.real(f'f{i}', 0, 2000, 3)
        x = p.real(f'x{i}', -100, 100, 10)
        here = any([f == g for g, _ in model])
        r = r0 if held else c.radius
        tl = held[1] if held else r.timeline
        if op == 'set':
            tl[f] = x
            model = put(model, f, x)
        elif op == 'add':
            w = Waypoint(at(f, fps), v.Real(x))
            if here:
                p.check(p.raises(lambda: tl.add(w),
                                 ValueError) is not None, 'clash-refused')
            else:
                tl.add(w)
                model = put(model, f, x)
        elif op == 'iadd':
            w = Waypoint(at(f, fps), v.Real(x))
            tl += w
            p.check(isinstance(tl, type(r.timeline)), 'iadd-type')
            model = put(model, f, x)
        else:
            if here:
                del tl[f]
                model2 = [(g, y) for g, y in model if not (g == f)]
                if not model2:
                    static = model[0][1]
                model = model2
            else:
                p.check(p.raises(lambda: tl.__delitem__(f),
                                 KeyError) is not None, 'absent')
        check_all(p, c, model, op)
        if held:
            check_all(p, c, model, 'held-' + op, held=held)
        if not model:
            p.check(p.close(c.radius.value, static, 1e-9), 'static')
    if cell['where'] == 'detached' and model:
        s = reload(c.radius)
        p.check(len(s.timeline) == len(model), 'reload')
        for w, (f, x) in zip(s.timeline, model):
            p.check(w.time.frames == f, 'reload-time')
            p.check(p.close(w.value.value, x, 1e-9), 'reload-value')


def two(p):
    """One timeline, reached in two ways."""
    c, fps = holder('doc')
    f, g = p.int('f', 0, 99), p.int('g', 0, 99)
    x, y = p.real('x', -100, 100, 10), p.real('y', -100, 100, 10)
    c.radius.timeline[50] = -1.5
    r, s = c.radius, c['radius']
    model = [(50, -1.5)]
    both = [(r, r.timeline), (s, s.timeline)]
    for held in both:
        check_all(p, c, model, 'two-before', held=held)
    for (one, tl), at_, z in [(both[0], f, x), (both[1], g, y),
                              (both[0], f, y)]:
        tl[at_] = z
        model = put(model, at_, z)
        for held in both:
            check_all(p, c, model, 'two', held=held)
    if len(model) > 1:
        del both[1][1][f]
        model = [(h, z) for h, z in model if not (h == f)]
        for held in both:
            check_all(p, c, model, 'two-deleted', held=held)


def infile(p, cell):
    c, fps = holder('doc')
    model = []
    text = ''
    for i in range(cell['n']):
        if cell['unit'] == 'fraction':
            n = p.int(f'n{i}', 0, 9999)
            k = p.choice(f'k{i}', [0, 4] if cell['n'] > 2 else [0, 1, 6])
            spec = f'{n}.' + ['0', '125', '', '', '5', '', '75'][k] + 'f'
            f = n + k / 8
        elif cell['unit'] == 'f':
            f = p.int(f'f{i}', 0, 9999)
            spec = f'{f}f'
        else:
            s = p.int(f's{i}', 0, 399)
            m = p.int(f'm{i}', 0, 23)
            f = s * 24 + m
            spec = f'{s}s {m}f'
        for g, _ in model:
            p.assume(f != g)
        model = put(model, f, i + 0.5)
        text += (f'<waypoint time="{spec}" before="clamped" after="linear">'
                 f'<real value="{i + 0.5}"/></waypoint>\n')
    tag = soup_of(f'<animated type="real">{text}</animated>').find().extract()
    c.radius.tag.replace_with(tag)
    check_all(p, c, model, 'file', stored=False)
    for w in c.radius.timeline:
        p.check(w.before == 'clamped', 'before')
        p.check(w.after == 'linear', 'after')
    x = p.int('x', 0, 9999)
    if not any([x == g for g, _ in model]):
        p.check(p.raises(lambda: c.radius.timeline[x], KeyError)
                is not None, 'absent')


def assign(p, cell):
    c, fps = holder('doc')
    c.radius.timeline[7] = 1.5
    fs = [p.real(f'f{i}', 0, 2000, 3) for i in range(3)]
    p.assume((fs[0] != fs[1]) & (fs[1] != fs[2]) & (fs[0] != fs[2]))
    ws = [Waypoint(at(f, fps), v.Real(i + 0.5)) for i, f in enumerate(fs)]
    model = []
    for i, f in enumerate(fs):
        model = put(model, f, i + 0.5)
    if cell['how'] == 'list':
        c.radius.timeline = ws
    elif cell['how'] == 'dict':
        c.radius.timeline = dict([(w.time, w) for w in ws])
    else:
        d = sangfroid.layer.Circle()
        d.radius.timeline.add(ws)
        before = str(d.tag)
        c.radius.timeline = d.radius.timeline
        p.check(str(d.tag) == before, 'source-unchanged')
    check_all(p, c, model, 'assign')


def move(p, cell):
    """
    A waypoint which was read from one place on a timeline
    and is stored at another.
    """
    c, fps = holder(cell['where'])
    d, _ = holder(cell['where'])
    f, g = p.int('f', 0, 99), p.int('g', 0, 99)
    x = p.real('x', -100, 100, 10)
    d.radius.timeline[50] = -1.5
    c.radius.timeline[f] = x
    w = c.radius.timeline[f]
    if cell['how'] == 'same':
        c.radius.timeline[g] = w
        model = put([(f, x)], g, x)
    elif cell['how'] == 'other':
        d.radius.timeline[g] = w
        check_all(p, d, put([(50, -1.5)], g, x), 'moved-to')
        model = [(f, x)]
    else:
        w = Waypoint(at(f, fps), v.Real(x), before='linear')
        d.radius.timeline[f] = w
        d.radius.timeline[g] = w
        check_all(p, d, put(put([(50, -1.5)], f, x), g, x), 'stored-twice')
        p.check(d.radius.timeline[g].before == 'linear', 'before')
        model = [(f, x)]
    check_all(p, c, model, 'moved')


def lookup(p, cell):
    """Every way of naming an instant."""
    c, fps = holder('doc')
    f = p.int('f', 0, 120)
    c.radius.timeline[60] = 4.5
    c.radius.timeline[f] = 2.5
    how = cell['how']
    if how == 'int':
        k = f
    elif how == 'float':
        k = float(f)
    elif how == 'str':
        k = f'{f}f'
    elif how == 'T':
        k = T(f)
    elif how == 'Tfps':
        k = at(f, '24')
    else:
        k = f - 121
    tl = c.radius.timeline
    w = tl[k]
    p.check(w.time.frames == f, 'found')
    p.check(w.value.value == 2.5, 'value')
    tl[k] = 8.5
    p.check(c.radius.timeline[f].value.value == 8.5, 'replaced')
    p.check(len(c.radius.timeline) == (1 if f == 60 else 2), 'length')
    del tl[k]
    if f == 60:
        p.check(not c.radius.is_animated, 'deleted')
    else:
        p.check(len(c.radius.timeline) == 1, 'deleted')
        p.check(p.raises(lambda: c.radius.timeline[f], KeyError)
                is not None, 'absent')


VALS = {'Integer': [3, 4], 'Bool': [True, False], 'String': ['a', 'b c'],
        'X_Y': [(1.5, 2.5), (-3.5, 4.0)],
        'Color': [(1.0, 0.5, 0.25, 1.0), (0.0, 0.5, 0.75, 1.0)],
        'Angle': [30.0, -12.5], 'Real': [1.5, -2.25]}


def empty(p, cell):
    """A value which is animated, but has no waypoints."""
    cls = getattr(v, cell['t'])
    vals = VALS[cell['t']]
    name = 'vector' if cell['t'] == 'X_Y' else cell['t'].lower()
    text = p.choice('text', ['', '\n', '<!--x-->'])
    tag = soup_of(f'<r><animated type="{name}">{text}</animated></r>')
    r = v.Value.from_tag(tag.r.animated)
    p.check(isinstance(r, cls), 'empty-type')
    p.check(r.is_animated, 'empty-animated')
    p.check(len(r.timeline) == 0, 'empty')
    p.check(list(r.timeline) == [], 'empty')
    p.check(not r.timeline, 'empty')
    f = p.int('f', 0, 999)
    p.check(p.raises(lambda: r.timeline[f], KeyError) is not None,
            'empty-absent')
    r.timeline[f] = vals[0]
    p.check(len(r.timeline) == 1, 'empty-set')
    p.check(r.timeline[f].value == vals[0], 'empty-set')
    s = v.Value.from_tag(tag.r.animated)
    p.check(s.timeline[f].value == vals[0], 'empty-set')


def types(p, cell):
    cls = getattr(v, cell['t'])
    vals = VALS[cell['t']]
    r = cls(vals[0])
    f = p.int('f', 0, 999)
    g = p.int('g', 0, 999)
    r.timeline[f] = vals[0]
    r.timeline[g] = cls(vals[1])
    p.check(r.is_animated, 'animated')
    if f == g:
        p.check(len(r.timeline) == 1, 'length')
        p.check(r.timeline[f].value == vals[1], 'value')
    else:
        p.check(len(r.timeline) == 2, 'length')
        p.check(r.timeline[f].value == vals[0], 'value')
        p.check(r.timeline[g].value == vals[1], 'value')
        s = reload(r)
        p.check(isinstance(s, cls), 'reload-type')
        ws = list(s.timeline)
        p.check(ws[0].time < ws[1].time, 'order')
        p.check(s.timeline[f].value == vals[0], 'reload')
        p.check(s.timeline[g].value == vals[1], 'reload')
        del r.timeline[f]
        p.check(r.timeline[g].value == vals[1], 'other-kept')
        p.check(len(r.timeline) == 1, 'deleted')


def early(p, cell):
    """Waypoints before the start, as well as after it."""
    c, fps = holder(cell['where'])
    f, g = p.int('f', -60, -1), p.int('g', -60, 60)
    p.assume(not (f == g))
    tl = c.radius.timeline
    model = []
    for i, k in enumerate([f, g]):
        w = Waypoint(at(k, fps), v.Real(i + 1.5))
        if p.choice(f'op{i}', [True, False]):
            tl.add(w)
        else:
            tl += w
        model = put(model, k, i + 1.5)
        got = list(c.radius.timeline)
        p.check(len(got) == len(model), 'early-length')
        for w2, (k2, x) in zip(got, model):
            p.check(w2.time.frames == k2, 'early-order')
            p.check(w2.value.value == x, 'early-value')
    for k, x in model:
        p.check(c.radius.timeline[at(k, fps)].value.value == x,
                'early-lookup')
    del c.radius.timeline[at(f, fps)]
    got = list(c.radius.timeline)
    p.check(len(got) == 1, 'early-deleted')
    p.check(got[0].time.frames == g, 'early-deleted')


def merge(p, cell):
    """Lists which are merged, where some instants may be the same."""
    c, fps = holder(cell['where'])
    model = []
    for i in range(cell['n']):
        f = p.int(f'was{i}', 0, 99)
        c.radius.timeline[f] = i + 20.5
        model = put(model, f, i + 20.5)
    fs = [p.int(f'f{i}', 0, 99) for i in range(3)]
    ws = [Waypoint(at(f, fps), v.Real(i + 0.5)) for i, f in enumerate(fs)]
    c.radius.timeline += ws
    if cell['n'] == 0:
        # there's one at zero, with what there was before
        model = [(0, 3.25)]
        if 0 not in [w.time.frames for w in c.radius.timeline]:
            model = []
    for i, f in enumerate(fs):
        model = put(model, f, i + 0.5)
    check_all(p, c, model, 'merge')


def delete(p, cell):
    """Every way of saying which one is to go."""
    c, fps = holder('doc')
    n = p.int('n', 0, 120)
    m, k = p.int('m', 0, 120), p.int('k', 0, 120)
    p.assume((n != m) & (n != k) & (m != k))
    model = []
    for f in (m, n, k):
        c.radius.timeline[f] = f + 0.5
        model = put(model, f, f + 0.5)
    how = cell['how']
    if how == 'int':
        t = n
    elif how == 'float':
        t = n * 1.0
    elif how == 'str':
        t = f'{n}f'
    elif how == 'T':
        t = T(n)
    elif how == 'Tfps':
        t = T(n, ref=c.tag)
    else:
        t = n - 121
    del c.radius.timeline[t]
    model = [x for x in model if not (x[0] == n)]
    check_all(p, c, model, 'delete')
    p.check(p.raises(lambda: c.radius.timeline.__delitem__(t), KeyError)
            is not None, 'delete-twice')
    check_all(p, c, model, 'delete-twice')
