"""Colours."""
from harness.lib import reload, soup_of, warm
import sangfroid
import sangfroid.value as v

BOUNDS = (
    'channels: every multiple of 2^-12 in 0..1, one or two channels symbolic '
    'at a time in the quick tier and all four in one cell; hex strings: every string of six '
    'or eight hex digits of either case with or without #; malformed: every '
    'string of length 0..8 with one or two symbolic characters from an '
    'alphabet with letters, signs, space and underscore, and every length '
    'but 6 and 8')
ASSUMPTIONS = ['channels are stored with six decimals: compared within 1e-6']
HEX = '0123456789abcdefABCDEF'


def cells(tier):
    out = []
    for n in (3, 4):
        for how in ['new', 'assign', 'animated', 'field', 'args', 'twice']:
            for c in range(n):
                out.append({'kind': 'tuple', 'n': n, 'how': how, 'sym': [c]})
    out.append({'kind': 'tuple', 'n': 4, 'how': 'new', 'sym': [0, 1, 2, 3]})
    for n in (6, 8):
        for hash_ in ['', '#']:
            for how in ['new', 'assign', 'field']:
                for i in range(0, n, 2):
                    out.append({'kind': 'hex', 'n': n, 'hash': hash_,
                                'how': how, 'at': i})
    out.append({'kind': 'hexall', 'n': 6})
    out.append({'kind': 'hexall', 'n': 8})
    for n in (6, 8):
        for i in range(0, n, 2):
            out.append({'kind': 'bad', 'n': n, 'at': i})
    out.append({'kind': 'length'})
    for n in (6, 8):
        out.append({'kind': 'edges', 'n': n})
    out.append({'kind': 'default'})
    for c in range(4):
        out.append({'kind': 'eq', 'c': c})
    out.append({'kind': 'file'})
    return out


def put(p, how, x):
    if how == 'new':
        return v.Color(x)
    if how == 'args':
        return v.Color(*x)
    if how == 'assign':
        r = warm(v.Color((0.25, 0.5, 0.75, 0.125)))
        r.value = x
        return r
    if how == 'animated':
        r = warm(v.Color((0.25, 0.5, 0.75, 0.125)))
        r.is_animated = True
        warm(r)
        r.value = x
        p.check(not r.is_animated, 'assigning-ends-animation')
        return r
    c = sangfroid.layer.Circle()
    if how == 'twice':
        # two objects for the same colour
        r, s = c.color, c['color']
        warm(r, s)
        r.value = x
        return s
    warm(c.color)
    c.color = x
    return c.color


def byte(s, i):
    return int(s[1 + 2 * i:3 + 2 * i], 16)


def check_hex(p, text, chans):
    """text is the hex form of these channels."""
    p.check(text.startswith('#'), 'hex-form')
    if len(text) == 7:
        text = text + 'ff'
    p.check(len(text) == 9, 'hex-form')
    for i in range(4):
        p.check(p.close(byte(text, i), chans[i] * 255, 0.5001), 'hex-value')


def run(p, cell):
    kind = cell['kind']
    if kind == 'tuple':
        base = [0.125, 0.5, 1.0, 0.75][:cell['n']]
        for i in cell['sym']:
            base[i] = p.real(f'c{i}', 0, 1, 12)
        r = put(p, cell['how'], tuple(base))
        want = base if cell['n'] == 4 else base + [1.0]
        got = r.as_tuple()
        p.check(len(got) == 4, 'four-channels')
        for i in range(4):
            p.check(p.close(got[i], want[i], 1e-6), 'channel')
        if len(cell['sym']) == 1:
            check_hex(p, r.value, want)
            p.check(str(r) == r.value, 'str')
            s = reload(r)
            p.check(s == r, 'reload')
            p.check(p.close(s.as_tuple()[cell['sym'][0]],
                            base[cell['sym'][0]], 1e-6), 'reload-channel')
            q = v.Color(r)
            p.check(q.as_tuple() == got, 'copy')
            p.check(q == r, 'copy-equal')
    elif kind == 'hex':
        text = '1a9Fc3e0'[:cell['n']]
        i = cell['at']
        two = p.text('h', 2, 2, HEX)
        text = text[:i] + two + text[i + 2:]
        check_hex_string(p, text, cell['hash'], put(p, cell['how'],
                                                    cell['hash'] + text))
    elif kind == 'hexall':
        text = p.text('h', cell['n'], cell['n'], HEX)
        r = v.Color(text)
        low = text.lower()
        full = low if cell['n'] == 8 else low + 'ff'
        for i in range(4):
            p.check(p.close(r.as_tuple()[i] * 255, int(full[2 * i:2 * i + 2],
                                                       16), 0.001),
                    'channel')
    elif kind == 'edges':
        # things before and after what would do
        pre = p.text('pre', 0, 2, '#x \n')
        post = p.text('post', 0, 2 - len(pre), '#; \n')
        text = pre + '12ab34CD'[:cell['n']] + post
        c = v.Color('#010203')
        before = str(c.tag)
        got, e = p.outcome(lambda: setattr(c, 'value', text))
        if (pre == '' or pre == '#') and post == '':
            p.check(got == 'ok', 'edges-accepted')
        else:
            p.check(got == 'raise', 'edges-rejected')
            p.check(isinstance(e, ValueError), 'ValueError')
            p.check(str(c.tag) == before, 'unchanged')
    elif kind == 'bad':
        n, i = cell['n'], cell['at']
        two = p.text('h', 2, 2, HEX + 'gGxXzZ -+_.#')
        good = all([c in HEX for c in two])
        text = '12ab34CD'[:n]
        text = text[:i] + two + text[i + 2:]
        if text.startswith('#'):
            p.assume(False)
        c = v.Color('#010203')
        before = str(c.tag)
        got, e = p.outcome(lambda: setattr(c, 'value', text))
        p.observe('outcome', got)
        if good:
            p.check(got == 'ok', 'good-accepted')
        else:
            p.check(got == 'raise', 'bad-rejected')
            p.check(isinstance(e, ValueError), 'ValueError')
            p.check(str(c.tag) == before, 'unchanged')
    elif kind == 'length':
        n = p.choice('n', [0, 1, 2, 3, 4, 5, 7, 9, 10])
        h = p.choice('hash', ['', '#'])
        c = p.text('c', 1, 1, HEX)
        text = h + c * n
        p.check(p.raises(lambda: v.Color(text), ValueError) is not None,
                'length-rejected')
        m = p.choice('m', [1, 2, 5, 6])
        x = p.real('x', 0, 1, 4)
        if m != 1:
            p.check(p.raises(lambda: v.Color((x,) * m), ValueError)
                    is not None, 'tuple-length-rejected')
    elif kind == 'default':
        a = p.real('a', 0, 1, 8)
        p.check(v.Color().as_tuple() == (1.0, 1.0, 1.0, 1.0), 'default')
        p.check(p.close(v.Color((a, a, a)).as_tuple()[3], 1, 0), 'opaque')
    elif kind == 'eq':
        i = cell['c']
        x = p.int('x', 0, 255)
        y = p.int('y', 0, 255)

        def col(n):
            t = ['10', '20', '30', '40']
            t[i] = f'{n:02x}'
            return ''.join(t)
        a, b = v.Color(col(x)), v.Color(col(y))
        p.check((a == b) == (x == y), 'equal')
        p.check((a == '#' + col(y)) == (x == y), 'equal-string')
        p.check((a == col(y).upper()) == (x == y), 'equal-string')
        p.check((a != b) == (x != y), 'differs')
        p.check(a == a.as_tuple(), 'equals-its-tuple')
    else:
        n = p.int('n', 0, 1000000)
        t = soup_of('<color><r>0.5</r><g>0.000000</g><b>1.000000</b>'
                    '<a>1.000000</a></color>').find()
        t.find('g').string = f'{n // 1000000}.{n % 1000000:06d}'
        c = v.Value.from_tag(t)
        p.check(p.close(c.as_tuple()[1] * 1000000, n, 0.001), 'file')
        check_hex(p, c.value, [0.5, n / 1000000, 1.0, 1.0])


def check_hex_string(p, text, hash_, r):
    low = text.lower()
    full = low if len(low) == 8 else low + 'ff'
    for i in range(4):
        p.check(p.close(r.as_tuple()[i] * 255, int(full[2 * i:2 * i + 2], 16),
                        0.001), 'channel')
    short = full[:6] if full.endswith('ff') else full
    p.check(r.value == '#' + short, 'hex-round-trip')
    p.check(r == hash_ + text, 'equal-string')
    p.check(reload(r).value == '#' + short, 'reload')
