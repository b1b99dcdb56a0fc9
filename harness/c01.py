"""Time specifications: what is accepted, and which instant it means."""
from harness.lib import doc, T

BOUNDS = (
    'Numeric specifications: every subset of h/m/s/f in order, each number '
    'any integer 0..99999 (hours 0..9999) or any decimal of the form D.D (each digit '
    'symbolic), optional leading minus, 7 ways of spacing, FPS 24, 25, 30, '
    '12.5 and unknown. Malformed specifications: every string of length '
    '1..4 (thorough 1..5) over the alphabet "0..9 h m s f . - x + _ S : space" and ARABIC-INDIC DIGIT THREE. '
    'Not claimed: exponents, minus signs after the first number, parts out '
    'of order, non-ASCII digits.')
ASSUMPTIONS = [
    'frame counts are compared to within 1e-5 of a frame',
]

UNITS = ['h', 'm', 's', 'f', 'hm', 'hs', 'hf', 'ms', 'mf', 'sf', 'hms',
         'hmf', 'hsf', 'msf', 'hmsf']
SIZE = {'h': 3600, 'm': 60, 's': 1}
SPACING = ['{}', ' {}', '{} ', '  {}  ', '\t{}', '{}\n', ' \n{}']


def cells(tier):
    out = []
    for u in UNITS:
        for fps in ['24', '25'] if u != 'hmsf' else ['25']:
            out.append({'kind': 'int', 'units': u, 'fps': fps})
    for u in ['f', 's', 'sf', 'ms'] + (
            ['hmsf'] if tier == 'thorough' else []):
        for fps in ['30', '12.5'] + (['23.976', '60'] if tier == 'thorough'
                                     else []):
            out.append({'kind': 'int', 'units': u, 'fps': fps})
    for u in ['s', 'sf', 'hm']:
        out.append({'kind': 'int', 'units': u, 'fps': '24', 'space': 1})
    for u in ['f', 's', 'm', 'sf']:
        out.append({'kind': 'dec', 'units': u, 'fps': '24'})
    for fps in ['12.5', '23.976', '0.5', '60']:
        out.append({'kind': 'dec', 'units': 's', 'fps': fps})
    for u in ['h', 'm', 'ms', 'sf'] if tier == 'thorough' else []:
        out.append({'kind': 'dec', 'units': u, 'fps': '12.5'})
    for u in ['h', 'm', 's', 'f', 'sf', 'ms', 'msf']:
        out.append({'kind': 'noref', 'units': u})
    for n in range(1, 6 if tier == 'thorough' else 5):
        out.append({'kind': 'any', 'len': n})
    out.append({'kind': 'types'})
    return out


def meaning(units, nums, fps, negative):
    seconds = 0
    frames = 0
    for u, n in zip(units, nums):
        if u == 'f':
            frames = n
        else:
            seconds = seconds + n * SIZE[u]
    r = seconds * fps + frames
    return -r if negative else r


def run(p, cell):
    kind = cell['kind']
    if kind == 'int':
        numeric(p, cell)
    elif kind == 'dec':
        decimal(p, cell)
    elif kind == 'noref':
        noref(p, cell)
    elif kind == 'any':
        anything(p, cell)
    else:
        types(p)


def numeric(p, cell):
    units = cell['units']
    nums = [p.int(f'n{i}', 0, 9999 if u == 'h' else 99999)
            for i, u in enumerate(units)]
    if cell.get('space'):
        sep = p.choice('sep', [' ', '', '  ', '\t'])
        outer = p.choice('outer', SPACING)
    else:
        sep, outer = ' ', '{}'
    negative = p.bool('negative')
    if len(units) > 1:
        # the sign of a zero is not meaningful
        p.assume(not negative or nums[0] > 0)
    text = sep.join([f'{n}{u}' for n, u in zip(nums, units)])
    if negative:
        text = '-' + text
    t = T(outer.format(text), ref=doc(fps=cell['fps']))
    p.observe('frames', t.frames)
    want = meaning(units, nums, float(cell['fps']), negative)
    p.check(p.close(t.frames, want, 1e-5), 'instant')
    p.check(t.fps == float(cell['fps']), 'fps')
    p.check(p.close(t.seconds * float(cell['fps']), want, 1e-5), 'seconds')


def decimal(p, cell):
    units = cell['units']
    texts = []
    nums = []
    for i, u in enumerate(units):
        a = p.text(f'a{i}', 0, 3, '0123456789')
        b = p.text(f'b{i}', 0, 3, '0123456789')
        if a == '' and b == '':
            p.assume(False)
        n = 0
        for c in a:
            n = n * 10 + int(c)
        scale = 1
        for c in b:
            n = n * 10 + int(c)
            scale = scale * 10
        texts.append(f'{a}.{b}{u}')
        nums.append((n, scale))
    negative = p.bool('negative')
    if len(units) > 1:
        p.assume(not negative or nums[0][0] > 0)
    text = ' '.join(texts)
    if negative:
        text = '-' + text
    t = T(text, ref=doc(fps=cell['fps']))
    p.observe('frames', t.frames)
    # everything in thousandths
    fine = [n * (1000 // s) for n, s in nums]
    want = meaning(units, fine, float(cell['fps']), negative)
    p.check(p.close(t.frames * 1000, want, 1e-3), 'instant')


def noref(p, cell):
    """Without a document, only frames and exactly zero seconds are known."""
    units = cell['units']
    nums = [p.int(f'n{i}', 0, 99999) for i in range(len(units))]
    text = ' '.join([f'{n}{u}' for n, u in zip(nums, units)])
    what, r = p.outcome(lambda: T(text))
    p.observe('what', what)
    if units == 'f':
        p.check(what == 'ok', 'frames-need-no-document')
        p.check(r.frames == nums[0], 'instant')
        p.check(r.fps is None, 'fps-unknown')
    else:
        if sum(nums) == 0:
            p.check(what == 'ok', 'zero-needs-no-document')
            p.check(r.frames == 0, 'instant')
            p.check(r.seconds == 0, 'zero-seconds')
        else:
            p.check(what == 'raise', 'seconds-need-document')
            p.check(isinstance(r, ValueError), 'rejected-with-ValueError')


def grammar(s):
    """
    What s means, reading left to right: a list of (number in units of
    1/10**5, unit) and whether there was a leading minus; or None if it's
    malformed; or 'unclaimed'.
    """
    s = s.strip()
    negative = False
    parts = []
    i = 0
    n = len(s)
    if n == 0:
        return None
    unclaimed = False
    if s == '0':
        return ([(0, 'f')], False)
    while i < n:
        if s[i] == ' ':
            i += 1
            continue
        if s[i] == '-':
            if parts:
                unclaimed = True
            negative = True
            i += 1
        digits = 0
        value = 0
        scale = 100000
        while i < n and s[i] in '0123456789':
            value = value * 10 + int(s[i])
            digits += 1
            i += 1
        if i < n and s[i] == '.':
            i += 1
            while i < n and s[i] in '0123456789':
                value = value * 10 + int(s[i])
                scale = scale // 10
                digits += 1
                i += 1
        if digits == 0 or i == n:
            return None
        u = s[i]
        i += 1
        hit = None
        for c in 'hmsf':
            if u == c:
                hit = c
        if hit is None:
            return None
        if any([hit == x for _, x in parts]):
            return None
        if any([parts and 'hmsf'.index(hit) < 'hmsf'.index(x)
                for _, x in parts]):
            unclaimed = True
        parts.append((value * scale, hit))
    if unclaimed:
        return 'unclaimed'
    if negative and len(parts) > 1 and parts[0][0] == 0:
        return 'unclaimed'
    return (parts, negative)


def anything(p, cell):
    s = p.text('s', cell['len'], cell['len'], '0123456789hmsf.-x+ _S:\u0663')
    what = grammar(s)
    if isinstance(what, str):
        p.assume(False)
    got, r = p.outcome(lambda: T(s, ref=doc()))
    p.observe('outcome', got)
    if what is None:
        p.check(got == 'raise', 'malformed-is-rejected')
        p.check(isinstance(r, ValueError), 'rejected-with-ValueError')
    else:
        p.check(got == 'ok', 'well-formed-is-accepted')
        parts, negative = what
        want = meaning([u for _, u in parts], [v for v, _ in parts], 24,
                       negative)
        p.check(p.close(r.frames * 100000, want, 0.1), 'instant')


def types(p):
    """Other types: numbers count frames; the rest is refused."""
    root = doc()
    f = p.real('f', 0, 100000, 4)
    n = p.int('n', 0, 100000)
    p.check(T(f).frames == f, 'float-is-frames')
    p.check(T(n).frames == n, 'int-is-frames')
    p.check(T(n, ref=root).frames == n, 'int-is-frames')
    p.check(T().frames == 0, 'default-is-start')
    junk = p.choice('junk', [None, [], {}, (1, 2), object(), '', ' ', 'f',
                             '-', '-f', '1', '2x', '1s2', 'f1', 's s',
                             '1f 1f', '1s 1s', '1m 2m', '1s -1f', '--1f',
                             '1..2f', '1.2.3f', 'nanf', 'inff', '1 f'])
    got, r = p.outcome(lambda: T(junk, ref=root))
    p.check(got == 'raise', 'junk-is-rejected')
    p.check(isinstance(r, (ValueError, TypeError)), 'junk-error-type')
