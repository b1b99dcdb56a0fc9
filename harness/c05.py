"""Simple values: what you assign is what you read, at once or reloaded."""
import warnings
from harness.lib import doc, reload, soup_of, at, warm, T
import sangfroid
import sangfroid.value as v

BOUNDS = (
    'Real and Angle: multiples of 2^-20 up to +-1000, of 2^-6 up to '
    '+-1000000, and every decimal of up to 5 digits either side of the '
    'point in a file; Integer: all of -10^9..10^9, and 40 beyond 2^31; 11 odd reals and 18 odd texts; Time: multiples of 1/64 '
    'frame up to +-500000 at 24 and 25 FPS, and detached; Bool: both, and '
    'every text of 4 or 5 letters; String: every text of up to 3 (thorough '
    '5) characters over an alphabet with the XML specials, quotes, newline, '
    'non-ASCII and astral characters (reload: not only whitespace)')
ASSUMPTIONS = ['Real is compared to within 1e-9']

CHARS = 'aZ09 _-#&<>"\'/;=\u00e9\u03a9\u4e2d\U0001f600'


def cells(tier):
    out = []
    for cls in ['Real', 'Angle']:
        for how in ['new', 'assign', 'animated', 'field', 'twice']:
            out.append({'kind': 'real', 'cls': cls, 'how': how,
                        'k': 20, 'hi': 1000})
            out.append({'kind': 'real', 'cls': cls, 'how': how,
                        'k': 6, 'hi': 1000000})
        out.append({'kind': 'file', 'cls': cls})
    for how in ['new', 'assign', 'animated', 'field', 'twice']:
        out.append({'kind': 'int', 'how': how})
        out.append({'kind': 'bool', 'how': how})
        for n in range(0, 6 if tier == 'thorough' else 4):
            out.append({'kind': 'string', 'how': how, 'len': n})
        out.append({'kind': 'white', 'how': how})
        for sign in ['pos', 'neg']:
            out.append({'kind': 'time', 'how': how, 'fps': '24',
                        'sign': sign})
    out.append({'kind': 'time', 'how': 'new', 'fps': '25', 'sign': 'pos'})
    out.append({'kind': 'timetext'})
    out.append({'kind': 'boolfile', 'len': 4})
    out.append({'kind': 'boolfile', 'len': 5})
    out.append({'kind': 'nothing'})
    out.append({'kind': 'edge'})
    out.append({'kind': 'far'})
    out.append({'kind': 'values'})
    out.append({'kind': 'cmp'})
    out.append({'kind': 'eq'})
    return out


def put(p, cls, how, x, first, field=None):
    """A value of class cls which has been given x in some way."""
    if how == 'new':
        return cls(x)
    if how == 'assign':
        r = cls(first)
        warm(r)
        r.value = x
        return r
    if how == 'animated':
        r = cls(first)
        warm(r)
        r.is_animated = True
        warm(r)
        r.value = x
        p.check(not r.is_animated, 'assigning-ends-animation')
        return r
    lay, name = field
    if how == 'twice':
        # two objects for the same value
        r, s = getattr(lay, name), getattr(lay, name)
        warm(r, s)
        r.value = x
        warm(r, s)
        return s
    warm(getattr(lay, name))
    setattr(lay, name, x)
    return getattr(lay, name)


def run(p, cell):
    warnings.simplefilter('ignore')
    kind = cell['kind']
    if kind == 'real':
        cls = getattr(v, cell['cls'])
        x = p.real('x', -cell['hi'], cell['hi'], cell['k'])
        if cls is v.Real:
            field = (sangfroid.layer.Circle(), 'radius')
        else:
            field = (sangfroid.layer.Rotate(), 'amount')
        r = put(p, cls, cell['how'], x, 7.25, field)
        p.check(isinstance(r, cls), 'type')
        p.check(not r.is_animated, 'not-animated')
        p.observe('value', r.value)
        p.check(p.close(r.value, x, 1e-9), 'value')
        p.check(p.close(float(r), x, 1e-9), 'float')
        s = reload(r)
        p.check(isinstance(s, cls), 'reload-type')
        p.check(p.close(s.value, x, 1e-9), 'reload')
    elif kind == 'file':
        cls = getattr(v, cell['cls'])
        n = p.int('n', 0, 99999)
        d = p.text('d', 1, 5, '0123456789')
        neg = p.bool('neg')
        text = f'{n}.{d}'
        if neg:
            text = '-' + text
        tag = soup_of(f'<{cls.__name__.lower()} value="{text}"/>').find()
        r = v.Value.from_tag(tag)
        p.check(isinstance(r, cls), 'type')
        m = n
        for c in d:
            m = m * 10 + int(c)
        scale = 10 ** len(d)
        p.check(p.close(r.value * scale, -m if neg else m, 1e-5),
                'file-value')
    elif kind == 'int':
        x = p.int('x', -10**9, 10**9)
        r = put(p, v.Integer, cell['how'], x, 5,
                (sangfroid.layer.Shade(), 'type_'))
        check_exact(p, r, v.Integer, x)
        p.check(int(r) == x, 'int')
        p.check(float(r) == x, 'float')
    elif kind == 'bool':
        x = p.bool('x')
        r = put(p, v.Bool, cell['how'], x, True,
                (sangfroid.layer.Circle(), 'invert'))
        check_exact(p, r, v.Bool, x)
        p.check(bool(r) == x, 'truth')
    elif kind == 'boolfile':
        s = p.text('s', cell['len'], cell['len'], 'trueTRUEfalsFALSx10')
        tag = soup_of('<bool/>').find()
        tag['value'] = s
        r = v.Value.from_tag(tag)
        p.check(r.value == (s.lower() == 'true'), 'bool-text')
    elif kind == 'string':
        s = p.text('s', cell['len'], cell['len'], CHARS)
        r = put(p, v.String, cell['how'], s, 'before',
                (sangfroid.layer.Text(), 'text'))
        p.check(isinstance(r, v.String), 'type')
        p.check(not r.is_animated, 'not-animated')
        p.check(r.value == s, 'value')
        p.check(str(r) == s, 'str')
        if s.strip() != '' or s == '':
            p.check(reload(r).value == s, 'reload')
        p.check(r == s, 'equal')
        p.check(r == v.String(s), 'equal-value')
        p.check(not (r == s + 'x'), 'unequal')
    elif kind == 'white':
        # the ends of lines, and tabs
        c = p.choice('c', ['\r', '\n', '\r\n', '\t', '\u2028', '\x85',
                           '\u00a0', '\ufeff', 'e\u0301', '\u212b'])
        for s in [c, 'a' + c + 'b', c + c]:
            r = put(p, v.String, cell['how'], s, 'before',
                    (sangfroid.layer.Text(), 'text'))
            p.check(r.value == s, 'white')
            p.check(str(r) == s, 'white-str')
            p.check(r == s, 'white-equal')
            p.check(v.Value.from_tag(r.tag).value == s, 'white-tag')
    elif kind == 'time':
        f = p.real('f', 0, 500000, 6)
        if cell['sign'] == 'neg':
            p.assume(f > 0)
            f = -f
        how = cell['how']
        t = at(f, None)
        p.assume(t.frames == f)
        if how in ('field', 'twice'):
            a = sangfroid.Animation()
            a.tag['fps'] = cell['fps']
            lay = sangfroid.layer.Timeloop()
            a.append(lay)
            r = put(p, v.Time, how, at(f, cell['fps']), None,
                    (lay, 'local_time'))
            p.check(r.value.fps == float(cell['fps']), 'fps')
            p.check(r.value.frames == f, 'value')
            p.check(r.value == t, 'equal')
        else:
            r = put(p, v.Time, how, t, '3f')
            p.check(isinstance(r, v.Time), 'type')
            p.check(not r.is_animated, 'not-animated')
            p.check(r.value.frames == f, 'value')
            s = reload(r)
            p.check(s.value.frames == f, 'reload')
    elif kind == 'timetext':
        n = p.int('n', 0, 99999)
        m = p.int('m', 0, 23)
        a = sangfroid.Animation()
        lay = sangfroid.layer.Timeloop()
        a.append(lay)
        lay.link_time = f'{n * 24 + m}f'
        p.check(lay.link_time.value.frames == n * 24 + m, 'frames-text')
        tag = lay.link_time.tag
        tag['value'] = f'{n}s {m}f'
        p.check(lay.link_time.value.frames == n * 24 + m, 'seconds-text')
    elif kind == 'far':
        # integers which no float can hold
        sign = p.choice('sign', [1, -1])
        x = sign * (p.choice('base', [2**31, 2**53, 10**17, 2**63, 10**30]) +
                    p.choice('more', [-1, 0, 1, 3]))
        how = p.choice('how', ['new', 'assign', 'animated', 'field'])
        r = put(p, v.Integer, how, x, 5, (sangfroid.layer.Shade(), 'type_'))
        check_exact(p, r, v.Integer, x)
        p.check(int(r) == x, 'int')
        p.check(not (r == x + 1), 'equal-int')
        p.check(not (r == v.Integer(x + 1)), 'equal-int')
    elif kind == 'edge':
        # numbers which Python writes in various ways, and long texts
        how = p.choice('how', ['new', 'assign', 'animated', 'field'])
        x = p.choice('x', [1e15, -1e15, 1e16, 123456789.125, 1e-5, -1e-5,
                           0.1, 1 / 3, 100.0, 1e5, 2834.645669, 'text'])
        if x == 'text':
            s = p.choice('s', [
                'a' * 300, 'one\ntwo', ' a ', '\ta', 'a\n', ']]>', '&amp;',
                '<!-- x -->', '<b>x</b>', 'e\u0301', 'None', 'True', '0',
                '(animated)', 'a  b', '\u00a0a', '\\n', '%s {0}'])
            r = put(p, v.String, how, s, 'before',
                    (sangfroid.layer.Text(), 'text'))
            p.check(r.value == s, 'edge-text')
            p.check(reload(r).value == s, 'edge-text-reload')
            p.check(r == s, 'edge-text')
            return
        for cls, field in [(v.Real, (sangfroid.layer.Circle(), 'radius')),
                           (v.Angle, (sangfroid.layer.Rotate(), 'amount'))]:
            r = put(p, cls, how, x, 7.25, field)
            p.check(abs(r.value - x) <= 1e-9, 'edge')
            p.check(abs(reload(r).value - x) <= 1e-9, 'edge-reload')
            p.check(r == x, 'edge-equal')
            p.check(not (r == x * 2 + 1), 'edge-equal')
    elif kind == 'nothing':
        # a new value which is given nothing
        cls = p.choice('cls', [v.Real, v.Angle, v.Integer, v.Bool, v.Time])
        x = p.int('x', -9, 9)
        for r in [cls(), cls(None)]:
            p.check(isinstance(r, cls), 'type')
            p.check(not r.is_animated, 'not-animated')
            p.check(r.value == 0, 'nothing')
        if cls in (v.Real, v.Angle, v.Integer):
            r = cls(x)
            r.value = None
            p.check(r.value == 0, 'nothing')
    elif kind == 'values':
        # given another value of the same type
        cls = p.choice('cls', [v.Real, v.Angle, v.Integer, v.Bool, v.Time,
                               v.String])
        n, m = p.int('n', 0, 10**6), p.int('m', 0, 9)
        if cls is v.Time:
            x, y = at(n), at(m)
        elif cls is v.Bool:
            x, y = n > 9, m > 4
        elif cls is v.String:
            x, y = f'a{n}', f'b{m}'
        elif cls is v.Integer:
            x, y = n, m
        else:
            x, y = n + 0.5, m + 0.25
        a, b = cls(x), cls(y)
        b.value = a
        p.check(b.value == x, 'given-a-value')
        b.value = y
        p.check(a.value == x, 'independent')
        p.check(b.value == y, 'independent')
        p.check((a == b) == (x == y), 'equal-values')
        p.check((a != b) == (x != y), 'equal-values')
        if cls is v.String:
            b.value = n
            p.check(b.value == f'{n}', 'text-of-a-number')
    elif kind == 'cmp':
        which = p.choice('which', [
            lambda: v.Real(1.5), lambda: v.Integer(1), lambda: v.Angle(2.0),
            lambda: v.Time('3f'), lambda: v.Color((1.0, 0.0, 0.0)),
            lambda: v.X_Y(1.0, 2.0)])
        other = p.choice('other', [None, 'wombat', object(), {}, [], 'zz'])
        r = which()
        p.check(not (r == other), 'unequal-to-unconvertible')
        p.check(r != other, 'differs-from-unconvertible')
    elif kind == 'eq':
        x = p.real('x', -1000, 1000, 10)
        y = p.real('y', -1000, 1000, 10)
        a, b = v.Real(x), v.Real(y)
        p.check(a == x, 'equals-its-value')
        same = x == y
        far = (x - y > 0.001) | (y - x > 0.001)
        if same:
            p.check(a == b, 'equal')
            p.check(a == y, 'equal-number')
        elif far:
            p.check(not (a == b), 'unequal')
            p.check(not (a == y), 'unequal-number')
            p.check(a != b, 'differs')
        m = p.int('m', -1000, 1000)
        n = p.int('n', -1000, 1000)
        p.check((v.Integer(m) == v.Integer(n)) == (m == n), 'equal-int')
        p.check((v.Integer(m) == n) == (m == n), 'equal-int')


def check_exact(p, r, cls, x):
    p.check(isinstance(r, cls), 'type')
    p.check(not r.is_animated, 'not-animated')
    p.observe('value', r.value)
    p.check(r.value == x, 'value')
    p.check(r == x, 'equal')
    s = reload(r)
    p.check(isinstance(s, cls), 'reload-type')
    p.check(s.value == x, 'reload')
