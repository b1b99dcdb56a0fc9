"""Keyframes."""
import os
from harness.lib import doc, soup_of, T
import sangfroid
from sangfroid.keyframe import Keyframe

BOUNDS = (
    'documents of 0 to 3 (thorough 4) keyframes, among layers and text, at '
    'any frames 0..99 at 24, 30 or 12.5 FPS, written in frames, seconds or '
    'both; names of up to 2 characters (1 among several) over a, space, &, <, e-acute; '
    'either flag; added to, removed and changed afterwards; saved and '
    'loaded in both formats; names with comments, CDATA or entities in a '
    'file; times in hours, minutes, or before the start')
ASSUMPTIONS = ['names are not only white space']


def cells(tier):
    out = []
    for n in range(5 if tier == 'thorough' else 4):
        for order in ['file', 'after-layers']:
            out.append({'kind': 'read', 'n': n, 'order': order})
    for n in (0, 1, 2):
        out.append({'kind': 'change', 'n': n})
    for ext in ['sif', 'sifz']:
        out.append({'kind': 'save', 'ext': ext})
    for u in ['frames', 'seconds', 'both', 'fraction']:
        out.append({'kind': 'units', 'u': u})
    out.append({'kind': 'new'})
    out.append({'kind': 'raw'})
    out.append({'kind': 'long'})
    return out


def blank(p):
    """A document with no keyframes."""
    a = sangfroid.Animation()
    for t in a.tag.find_all('keyframe'):
        t.extract()
    return a


def put(p, a, i, where=None, n=2):
    """Adds a keyframe; returns what it ought to be."""
    t = soup_of('<keyframe/>').find()
    frames = p.int(f't{i}', 0, 99)
    if i == 0:
        name = p.text('n0', 0, 2 if n < 2 else 1, 'a &<\u00e9')
        p.assume(name == '' or name.strip() != '')
    elif i == 1:
        name = p.text('n1', 1, 1, 'ab')
    else:
        name = f'name{i}'
    active = p.choice(f'a{i}', [True, False]) if i < 2 else i != 8
    t['time'] = f'{frames}f'
    t['active'] = 'true' if active else 'false'
    if name != '':
        t.string = name
    if where is None:
        a.tag.append(t)
    else:
        a.tag.insert(where, t)
    return [frames, name, active]


def same(p, got, want, label):
    got = list(got)
    p.check(len(got) == len(want), label + '-number')
    for k, (frames, name, active) in zip(got, want):
        p.check(isinstance(k, Keyframe), label + '-class')
        p.check(k.time.frames == frames, label + '-time')
        p.check(k.name == name, label + '-name')
        p.check(k.active is active, label + '-active')


def run(p, cell):
    kind = cell['kind']
    if kind == 'read':
        a = blank(p)
        want = []
        for i in range(cell['n']):
            want.append(put(p, a, i, n=cell['n']))
            if cell['order'] == 'after-layers':
                a.append(sangfroid.layer.Circle())
                a.tag.append('\n')
        ks = a.keyframes
        p.check(len(ks) == cell['n'], 'len')
        same(p, ks, want, 'read')
        same(p, ks, want, 'again')
        before = str(a.tag)
        str(ks)
        p.check(str(a.tag) == before, 'reading-changes-nothing')
    elif kind == 'change':
        a = blank(p)
        want = [put(p, a, i) for i in range(cell['n'])]
        ks = a.keyframes
        same(p, ks, want, 'before')
        # one at the end, one at the front, one gone, one changed
        want.append(put(p, a, 7))
        p.check(len(ks) == len(want), 'added-len')
        same(p, ks, want, 'added')
        same(p, a.keyframes, want, 'added-new-list')
        want.insert(0, put(p, a, 8, where=0))
        p.check(len(ks) == len(want), 'inserted-len')
        same(p, ks, want, 'inserted')
        i = p.choice('gone', list(range(len(want))))
        a.tag.find_all('keyframe')[i].extract()
        del want[i]
        p.check(len(ks) == len(want), 'removed-len')
        same(p, ks, want, 'removed')
        k = list(ks)[0]
        f = p.int('f', 0, 99)
        a.tag.find('keyframe')['time'] = f'{f}f'
        want[0][0] = f
        same(p, ks, want, 'changed')
        p.check(k.time.frames == f, 'changed-old')
        a.tag.find('keyframe')['active'] = 'false'
        want[0][2] = False
        same(p, ks, want, 'deactivated')
    elif kind == 'save':
        a = blank(p)
        want = [put(p, a, i) for i in range(2)]
        name = os.path.join(p.tmpdir(), 'x.' + cell['ext'])
        a.save(name)
        b = sangfroid.Animation(name)
        p.check(len(b.keyframes) == 2, 'loaded-len')
        same(p, b.keyframes, want, 'loaded')
        same(p, a.keyframes, want, 'saved')
    elif kind == 'units':
        a = blank(p)
        fps = p.choice('fps', ['24.000', '30', '12.5'])
        a.tag['fps'] = fps
        t = soup_of('<keyframe active="true">x</keyframe>').find()
        s = p.int('s', 0, 99)
        f = p.int('f', 0, 23)
        r = float(fps)
        if cell['u'] == 'frames':
            t['time'] = f'{s}f'
            want = s
        elif cell['u'] == 'seconds':
            t['time'] = f'{s}s'
            want = s * r
        elif cell['u'] == 'both':
            t['time'] = f'{s}s {f}f'
            want = s * r + f
        else:
            t['time'] = f'{s}.5s'
            want = (s + 0.5) * r
        a.tag.append(t)
        k = list(a.keyframes)[0]
        p.check(p.close(k.time.frames, want, 1e-9), 'units')
        if want != 0:
            p.check(p.close(k.time.seconds, want / r, 1e-9), 'seconds')
        a.fps = 10
        p.check(p.close(list(a.keyframes)[0].time.frames,
                        want if cell['u'] == 'frames' else
                        s * 10 + (f if cell['u'] == 'both' else 0) +
                        (5 if cell['u'] == 'fraction' else 0), 1e-9),
                'new-fps')
    elif kind == 'raw':
        # the ways in which a file may spell it
        f, g = p.int('f', 0, 99), p.int('g', 0, 99)
        text, name = p.choice('name', [
            ('one<!-- x -->two', 'onetwo'), ('<![CDATA[a<b]]>', 'a<b'),
            ('&amp;&lt;&#65;', '&<A'), ('one\ntwo', 'one\ntwo'),
            ('<!-- x -->', ''), ('<!-- x -->one', 'one'), ('', ''),
            ('a &quot;b&quot;', 'a "b"'), (' one ', ' one '),
            ('true', 'true'), ('0f', '0f'), ('x' * 99, 'x' * 99)])
        flag = p.choice('flag', ['true', 'false'])
        path = os.path.join(p.tmpdir(), 'x.sif')
        with open(path, 'wb') as h:
            h.write(('<?xml version="1.0"?><canvas fps="24" begin-time="0f" '
                     'end-time="5s"><name>n</name>\n'
                     f'<keyframe active="{flag}" time=" {f}f" wombat="1">'
                     f'{text}</keyframe><!-- <keyframe/> -->'
                     f'<keyframe time="{g}f" active="false">last</keyframe>\n'
                     '</canvas>').encode('utf-8'))
        a = sangfroid.Animation(path)
        p.check(len(a.keyframes) == 2, 'raw-len')
        same(p, a.keyframes, [[f, name, flag == 'true'],
                              [g, 'last', False]], 'raw')
        p.check(len(str(a.keyframes)) > 0, 'raw-str')
    elif kind == 'long':
        # hours, minutes, and times before the beginning
        a = blank(p)
        n = p.int('n', 0, 999)
        spec, want = p.choice('spec', [
            (f'{n}h', n * 86400), (f'{n}m 2s', n * 1440 + 48),
            (f'{n}h 1m 1s 1f', n * 86400 + 1440 + 25), (f'-{n}f', -n),
            (f'-{n}s', -n * 24), (f'{n}.25f', n + 0.25),
            (f'{n}s {n}f', n * 25)])
        t = soup_of('<keyframe active="true">x</keyframe>').find()
        t['time'] = spec
        a.tag.append(t)
        same(p, a.keyframes, [[want, 'x', True]], 'long')
    else:
        a = sangfroid.Animation()
        same(p, a.keyframes, [[0, 'start', True]], 'new')
        n = p.choice('n', [0, 1])
        b = sangfroid.Animation()
        for _ in range(n):
            put(p, b, 0)
        same(p, a.keyframes, [[0, 'start', True]], 'others')
        p.check(len(b.keyframes) == n + 1, 'other-len')
