"""str(T) parses back to the same instant."""
from harness.lib import doc, at, T

BOUNDS = ('frame counts: every multiple of 1/64 frame from -20000000 to '
          '20000000 (thorough: also every multiple of 1/1024 up to 100000), '
          'FPS 24, 25, 30, 12, 60, 12.5 and unknown (thorough: also 50, 15, '
          '10, 0.5, 1000); for FPS 23.9765625 every multiple of 1/64 up to '
          '+-100000')
ASSUMPTIONS = ['FPS values whose multiples are not exact binary fractions '
               '(23.976, 29.97) are outside the exact-equality claim']
EXACT = ['24', '25', '30', '12', '60', '12.5']


def cells(tier):
    out = []
    fpss = list(EXACT)
    if tier == 'thorough':
        fpss += ['50', '15', '10', '0.5', '1000']
    for fps in fpss:
        for sign in ['pos', 'neg']:
            out.append({'fps': fps, 'sign': sign, 'k': 6, 'hi': 20000000})
            if tier == 'thorough':
                out.append({'fps': fps, 'sign': sign, 'k': 10,
                            'hi': 100000})
    for sign in ['pos', 'neg']:
        out.append({'fps': '23.9765625', 'sign': sign, 'k': 6, 'hi': 100000})
    out.append({'fps': None, 'sign': 'pos', 'k': 6, 'hi': 20000000})
    out.append({'fps': None, 'sign': 'neg', 'k': 6, 'hi': 20000000})
    return out


def run(p, cell):
    hi = cell['hi']
    f = p.real('frames', 0, hi, cell['k'])
    ref = doc(fps=cell['fps']) if cell['fps'] else None
    if cell['sign'] == 'neg':
        p.assume(f > 0)   # the sign of zero is not claimed
        f = -f
    t = at(f, cell['fps'])
    p.assume(t.frames == f)
    s = str(t)
    p.observe('text', s)
    u = T(s, ref=ref)
    p.observe('frames', u.frames)
    p.check(u.frames == f, 'round-trip')
    p.check(u == t, 'equal')
    p.check(T(repr(t), ref=ref).frames == f, 'repr-round-trip')
