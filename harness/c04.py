"""Counting from the end; the length of an animation."""
from harness.lib import doc, at, T
import sangfroid

BOUNDS = ('begin and end times any whole number of frames 0..100000 (end not '
          'before begin), or of seconds 0..2000, FPS 24, 25, 12.5 (thorough: 30); '
          'offsets from the end any multiple of 1/16 frame up to 100000; '
          'reference the root, a nested tag, a layer, or what is inside a canvas of '
          'another FPS; the same, asked again '
          'after the beginning, the end or the FPS of the document changes')
ASSUMPTIONS = []


CHANGES = ['end-time', 'begin-time', 'fps', 'fps-property']


def cells(tier):
    out = []
    for fps in ['24', '25', '12.5'] + (['30'] if tier == 'thorough' else []):
        for unit in ['f', 's']:
            out.append({'kind': 'end', 'fps': fps, 'unit': unit})
            out.append({'kind': 'frac', 'fps': fps, 'unit': unit})
            out.append({'kind': 'anim', 'fps': fps, 'unit': unit})
        out.append({'kind': 'copy', 'fps': fps})
        for what in CHANGES:
            out.append({'kind': 'change', 'fps': fps, 'what': what})
    out.append({'kind': 'noref'})
    out.append({'kind': 'ref'})
    return out


def span(p, cell):
    hi = 100000 if cell['unit'] == 'f' else 2000
    b = p.int('begin', 0, hi)
    e = p.int('end', 0, hi)
    p.assume(e >= b)
    size = 1 if cell['unit'] == 'f' else float(cell['fps'])
    u = cell['unit']
    return f'{b}{u}', f'{e}{u}', b * size, e * size


def run(p, cell):
    kind = cell['kind']
    if kind in ('end', 'frac'):
        bs, es, b, e = span(p, cell)
        root = doc(fps=cell['fps'], begin=bs, end=es)
        if kind == 'end':
            n = p.int('n', 1, 100000)
        else:
            n = p.real('n', 1, 100000, 4)
        t = T(-n, ref=root)
        p.observe('frames', t.frames)
        p.check(t.frames == (e - b) + 1 - n, 'from-end')
        p.check(t.fps == float(cell['fps']), 'fps')
        p.check(T(-n, ref=root.find('name')).frames == t.frames,
                'any-tag-of-the-document')
    elif kind == 'anim':
        bs, es, b, e = span(p, cell)
        a = sangfroid.Animation()
        a.tag['fps'] = cell['fps']
        a.tag['begin-time'] = bs
        a.tag['end-time'] = es
        p.check(a.begin_time.frames == b, 'begin')
        p.check(a.end_time.frames == e, 'end')
        n = a.framecount
        p.observe('framecount', n)
        p.check(isinstance(n, int), 'framecount-is-int')
        if cell['fps'] != '12.5':
            p.check(n == e - b + 1, 'framecount')
        p.check((n <= T(-1, ref=a).frames + 1) &
                (T(-1, ref=a).frames + 1 - n < 1), 'one-past-last-frame')
        p.check(T(-1, ref=a).frames == e - b, 'last-frame')
        p.check(T(0, ref=a).frames == 0, 'first-frame')
    elif kind == 'change':
        change(p, cell)
    elif kind == 'copy':
        f = p.real('f', -100000, 100000, 6)
        root = doc(fps=cell['fps'])
        t = at(f, cell['fps'])
        p.assume(t.frames == f)
        u = T(t, ref=root)
        p.check(u.frames == f, 'copy')
        p.check(u.fps == t.fps, 'copy-fps')
        p.check(T(at(f), ref=root).frames == f, 'copy-adds-fps')
        p.check(p.close(u.seconds * u.fps, f, 1e-6), 'seconds')
    elif kind == 'noref':
        f = p.real('f', -100000, 100000, 6)
        got, r = p.outcome(lambda: T(f))
        if f < 0:
            p.check(got == 'raise', 'end-unknown')
            p.check(isinstance(r, ValueError), 'ValueError')
        else:
            p.check(got == 'ok', 'start-known')
            p.check(r.frames == f, 'frames')
            p.check(r.fps is None, 'fps-unknown')
            if f == 0:
                p.check(r.seconds == 0, 'zero-seconds')
            else:
                p.check(p.raises(lambda: r.seconds, ValueError) is not None,
                        'seconds-unknown')
    else:
        n = p.int('n', 1, 100)
        a = sangfroid.Animation()
        c = sangfroid.layer.Circle()
        p.check(p.raises(lambda: T(-n, ref=c), ValueError) is not None,
                'detached-layer')
        a.append(c)
        p.check(T(-n, ref=c).frames == 121 - n, 'attached-layer')
        g = sangfroid.layer.Group()
        a.append(g)
        d = sangfroid.layer.Circle()
        g.append(d)
        p.check(T(-n, ref=d).frames == 121 - n, 'nested-layer')
        p.check(T(-n, ref=d.radius).frames == 121 - n, 'nested-value')
        # the document's length and FPS are those of the outermost canvas
        g.tag.find('canvas')['fps'] = '5'
        g.tag.find('canvas')['begin-time'] = '1f'
        g.tag.find('canvas')['end-time'] = '7f'
        for ref in [d, d.tag, d.radius, d.radius.tag, g, g.tag,
                    g.tag.find('canvas'), c]:
            t = T(-n, ref=ref)
            p.check(t.frames == 121 - n, 'inner-canvas')
            p.check(t.fps == 24.0, 'inner-canvas-fps')
        p.check(a.framecount == 121, 'inner-canvas-framecount')
        p.check(p.raises(lambda: T(1, ref='x'), TypeError) is not None,
                'ref-type')
        fps = p.choice('fps', ['0', '-1', '-24'])
        p.check(p.raises(lambda: T(1, ref=doc(fps=fps)), ValueError)
                is not None, 'fps-positive')


def change(p, cell):
    """The answer is about the document as it is now."""
    a = sangfroid.Animation()
    c = sangfroid.layer.Circle()
    a.append(c)
    a.tag['fps'] = cell['fps']
    b = p.int('begin', 0, 50)
    e = p.int('end', 100, 2000)
    n = p.int('n', 1, 2000)
    a.tag['begin-time'] = f'{b}f'
    a.tag['end-time'] = f'{e}f'
    fps = float(cell['fps'])
    length(p, a, c, n, b, e, fps, 'before')
    what = cell['what']
    if what == 'end-time':
        e = p.int('end2', 100, 2000)
        a.tag['end-time'] = f'{e}f'
    elif what == 'begin-time':
        b = p.int('begin2', 0, 50)
        a.tag['begin-time'] = f'{b}f'
    else:
        # the end, in seconds, is that many frames more or fewer
        s = p.int('s', 10, 100)
        a.tag['end-time'] = f'{s}s'
        length(p, a, c, n, b, s * fps, fps, 'seconds')
        fps = fps * 2
        if what == 'fps':
            a.tag['fps'] = str(fps)
        else:
            a.fps = fps
        e = s * fps
    length(p, a, c, n, b, e, fps, 'after')


def length(p, a, c, n, b, e, fps, label):
    for ref in [a, c, a.tag]:
        t = T(-n, ref=ref)
        p.check(t.frames == e - b + 1 - n, label + '-from-end')
        p.check(t.fps == fps, label + '-fps')
    k = a.framecount
    p.check((k <= e - b + 1) & (e - b + 1 < k + 1), label + '-framecount')
    p.check(a.begin_time.frames == b, label + '-begin')
    p.check(a.end_time.frames == e, label + '-end')
