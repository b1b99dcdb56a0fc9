"""Saving and loading."""
import gzip
import io
import os
import resource
from harness.lib import at, T
from harness.c14 import make, holds, TABLE, fields
import sangfroid
import sangfroid.format
import sangfroid.value as v
from sangfroid import layer as L

BOUNDS = (
    'documents with one layer of each of the 55 types, in or out of a '
    'group, with any value of any of its fields (as for C14), animated or '
    'not; names with any of 12 extensions in any mixture of case, and 13 more, '
    'in directories whose names have dots in them or not; files '
    'of either format under any of 6 names, and of 8 which are neither; '
    'sequences of 3 (thorough 4) saves, each under one of two names or '
    'none, or failing in one of 6 ways, among them a disk which is full '
    'after 0, 10 or 100 bytes; files in 6 encodings, with any of 15 texts; the animation changed in between')
ASSUMPTIONS = [
    'texts have no control characters but tabs and the ends of lines '
    '(XML does not allow the others)',
    'only one process writes to the directory']
CLASSES = (
    'Advanced_Outline Bevel Blur Checker_Board Chromakey Circle Clamp '
    'Colorcorrect Conical_Gradient Curve_Gradient Curve_Warp Duplicate '
    'Filter_Group Freetime Group Halftone2 Import Inside_Out '
    'Julia Linear_Gradient Lumakey Mandelbrot Metaballs Motion_Blur Noise '
    'Noise_Distort Outline Plant Polygon Radial_Blur Radial_Gradient '
    'Rectangle Region Rotate Scale Shade Simple_Circle Skeleton '
    'Skeleton_Deformation Solid_Color Sound Spherize Spiral_Gradient Star '
    'Stretch Stroboscope Super_Sample Switch Text Timeloop Translate Twirl '
    'Warp Xor_Pattern Zoom')
OPS = ['one', 'two', 'none', 'badext', 'nodir', 'isdir', 'surrogate',
       'full', 'sfg']


def cells(tier):
    out = []
    for c in CLASSES.split():
        if c != 'Scale':
            out.append({'kind': 'fields', 'c': c})
    for t in ['Real', 'Integer', 'Bool', 'Angle', 'Time', 'Color', 'X_Y',
              'Gradient', 'String', 'BlendMethod']:
        out.append({'kind': 'timeline', 't': t})
    for i in range(12):
        out.append({'kind': 'extension', 'i': i})
    out.append({'kind': 'names'})
    out.append({'kind': 'contents'})
    out.append({'kind': 'foreign'})
    out.append({'kind': 'locale'})
    out.append({'kind': 'text'})
    out.append({'kind': 'encoding'})
    out.append({'kind': 'white'})
    n = 4 if tier == 'thorough' else 3
    for start in ['new', 'sif', 'sifz', 'misnamed']:
        for a in OPS:
            if n == 3:
                out.append({'kind': 'history', 'start': start, 'ops': [a],
                            'n': n})
            else:
                for b in OPS:
                    out.append({'kind': 'history', 'start': start,
                                'ops': [a, b], 'n': n})
    for f in ['circles.sif', 'wombats.sifz']:
        out.append({'kind': 'real', 'f': f})
    return out


def tree(tag):
    """What there is in a document, without the white space."""
    texts = []
    kids = []
    for c in tag.contents:
        if c.name is not None:
            kids.append(tree(c))
        elif str(c).strip() != '':
            texts.append(str(c))
    return (str(tag.name), sorted((str(k), str(x))
                                  for k, x in tag.attrs.items()),
            texts, kids)


def kind_of(name):
    with open(name, 'rb') as f:
        return {b'<?': 'sif', b'\x1f\x8b': 'sifz'}.get(f.read(2), '?')


def run(p, cell):
    kind = cell['kind']
    if kind == 'fields':
        c = cell['c']
        a = sangfroid.Animation()
        g = L.Group()
        g.desc = 'g'
        a.append(L.Circle())
        a.append(g)
        lay = getattr(L, c)()
        lay.desc = 'the one'
        inside, ext = p.choice('inside', [(True, 'sif'), (False, 'sifz')])
        (g if inside else a).append(lay)
        f, name, t = p.choice('field', fields(c))
        x = make(p, t)
        setattr(lay, f, x)
        b = there(p, a, ext)
        got = b.find(desc='the one')
        p.check(type(got) is type(lay), 'class')
        holds(p, getattr(got, f), t, x, 'loaded')
        holds(p, got[name], t, x, 'loaded-by-name')
        p.check(tree(b.tag) == tree(a.tag), 'same')
        p.check([k.desc for k in b] == [k.desc for k in a], 'order')
    elif kind == 'timeline':
        t = cell['t']
        cls, f = {'Real': ('Circle', 'radius'), 'Integer': ('Star', 'points'),
                  'Bool': ('Circle', 'invert'), 'Angle': ('Rotate', 'amount'),
                  'Time': ('Timeloop', 'link_time'),
                  'Color': ('Circle', 'color'), 'X_Y': ('Circle', 'origin'),
                  'Gradient': ('Linear_Gradient', 'gradient'),
                  'String': ('Text', 'text'),
                  'BlendMethod': ('Circle', 'blend_method')}[t]
        a = sangfroid.Animation()
        lay = getattr(L, cls)()
        a.append(lay)
        val = lay[f]
        t1, t2 = p.int('t1', 0, 9), p.int('t2', 10, 99)
        x, y = make(p, t), make(p, t, '2')
        b1 = p.choice('b1', ['tcb', 'clamped', 'constant', 'linear', 'ease'])
        one = getattr(v, t)(x)
        two = getattr(v, t)(y)
        val.timeline.add([
            v.Waypoint(T(t2, ref=a.tag), two, before=b1, after='halt'),
            v.Waypoint(T(t1, ref=a.tag), one, before='linear', after=b1)])
        ext = p.choice('ext', ['sif', 'sifz'])
        b = there(p, a, ext)
        got = list(b[0][f].timeline)
        p.check(len(got) == 2, 'waypoints')
        for w, (tt, xx, bb, aa) in zip(got, [(t1, x, 'linear', b1),
                                             (t2, y, b1, 'ease')]):
            p.check(w.time.frames == tt, 'time')
            p.check(w.before == bb and w.after == aa, 'interpolation')
            holds(p, w.value, t, xx, 'waypoint')
        p.check(tree(b.tag) == tree(a.tag), 'same')
    elif kind == 'extension':
        extension(p, cell['i'])
    elif kind == 'names':
        names(p)
    elif kind == 'contents':
        # the name says nothing about what's there already
        d = p.tmpdir()
        a = sangfroid.Animation()
        n = p.int('n', 0, 9999)
        a.width = n
        fmt = p.choice('fmt', ['sif', 'sifz'])
        a.save(os.path.join(d, 'x.' + fmt))
        name = os.path.join(d, p.choice('name', [
            'y.sif', 'y.sifz', 'y.txt', 'y', 'y.SIF', 'y.sfg']))
        os.rename(os.path.join(d, 'x.' + fmt), name)
        b = sangfroid.Animation(name)
        p.check(b.width == n, 'contents')
        p.check(tree(b.tag) == tree(a.tag), 'contents')
    elif kind == 'foreign':
        d = p.tmpdir()
        name = os.path.join(d, 'x.' + p.choice('ext', ['sif', 'sifz', 'sfg']))
        what = p.choice('what', [b'', b'<', b'<c', b' <?xml', b'PK\x03\x04',
                                 b'\x1f', b'\x8b\x1f', b'wombat', None])
        if what is not None:
            with open(name, 'wb') as f:
                f.write(what)
            p.check(p.raises(lambda: sangfroid.Animation(name), ValueError)
                    is not None, 'foreign')
            with open(name, 'rb') as f:
                p.check(f.read() == what, 'foreign-unchanged')
        else:
            p.check(p.raises(lambda: sangfroid.Animation(name),
                             FileNotFoundError) is not None, 'absent')
            p.check(os.listdir(d) == [], 'absent-still')
    elif kind == 'locale':
        # a system whose own encoding isn't UTF-8
        a = sangfroid.Animation()
        s = p.text('s', 1, 2, 'a\u00e9\u0416')
        a.append(L.Text(s))
        a[0].desc = s

        def other(file, mode='r', *args, **kwargs):
            if 'b' not in mode and 'encoding' not in kwargs \
                    and len(args) < 2:
                kwargs['encoding'] = 'latin-1'
            return io.open(file, mode, *args, **kwargs)
        sangfroid.format.open = other
        try:
            b = there(p, a, p.choice('ext', ['sif', 'sifz']))
        finally:
            del sangfroid.format.open
        p.check(b[0].desc == s, 'locale-desc')
        p.check(b[0].text.value == s, 'locale-text')
    elif kind == 'white':
        # white space inside texts
        s = p.choice('s', ['\t', '\n', '  ', '\u00a0', '\n\n', '\r',
                           '\r\n', ' \t\n ', '\u2028', '\x85', '&#10;'])
        if p.choice('round', [True, False]):
            s = 'a' + s + 'b'
        a = sangfroid.Animation()
        g = L.Group()
        a.append(g)
        a.append(L.Text(s))
        g.append(L.Text(s + '\n'))
        g.desc = s
        a.desc = s
        a.tag.find('name').string = s
        a.tag.find('keyframe').string = s
        b = there(p, a, p.choice('ext', ['sif', 'sifz']))
        p.check(b[1].text.value == s, 'white-text')
        p.check(b[0][0].text.value == s + '\n', 'white-text')
        p.check(b.desc == s, 'white-desc')
        p.check(b.name == s, 'white-name')
        p.check(b[0].desc == s, 'white-layer')
        p.check(b.find(desc=s).tag is b[0].tag, 'white-find')
        p.check(list(b.keyframes)[0].name == s, 'white-keyframe')
        p.check(tree(b.tag) == tree(a.tag), 'white-same')
    elif kind == 'encoding':
        # files whose encoding isn't UTF-8, or isn't given
        s = (p.choice('s', ['', 'a', '<', '\u00e9', '\u00a3']) +
             p.choice('t', ['a', '\u00e9', '\u00a3']))
        enc = p.choice('enc', ['UTF-8', 'utf-8', '', 'ISO-8859-1',
                               'US-ASCII', 'windows-1252'])
        quoted = s.replace('<', '&lt;')
        said = f' encoding="{enc}"' if enc else ''
        if p.choice('entity', [True, False]) or enc == 'US-ASCII':
            quoted = quoted.replace('\u00e9', '&#233;').replace(
                '\u00a3', '&#xA3;')
        text = (f'<?xml version="1.0"{said}?>\n<canvas version="1.2" '
                f'width="7"><name>{quoted}</name><layer type="text" '
                f'desc="{quoted}"><param name="text"><string>{quoted}'
                '</string></param></layer></canvas>')
        name = os.path.join(p.tmpdir(), 'x.sif')
        data = text.encode(enc or 'UTF-8')
        if p.choice('ext', ['sif', 'sifz']) == 'sifz':
            name += 'z'
            data = gzip.compress(data)
        with open(name, 'wb') as f:
            f.write(data)
        a = sangfroid.Animation(name)
        p.check(a.name == s, 'encoding-name')
        p.check(a[0].desc == s, 'encoding-desc')
        p.check(a[0].text.value == s, 'encoding-text')
        a.save()
        b = sangfroid.Animation(name)
        p.check(b[0].desc == s, 'encoding-saved')
        p.check(b[0].text.value == s, 'encoding-saved')
    elif kind == 'text':
        a = sangfroid.Animation()
        s = p.text('s', 1, 2, 'a <&>"\u00e9')
        p.assume(s.strip() != '')
        where = p.choice('where', ['desc', 'text', 'adesc', 'keyframe'])
        t = L.Text('x')
        a.append(t)
        if where == 'desc':
            t.desc = s
        elif where == 'text':
            t.text = s
        elif where == 'adesc':
            a.desc = s
        else:
            a.tag.find('keyframe').string = s
        b = there(p, a, p.choice('ext', ['sif', 'sifz']))
        got = {'desc': lambda: b[0].desc, 'text': lambda: b[0].text.value,
               'adesc': lambda: b.desc,
               'keyframe': lambda: list(b.keyframes)[0].name}[where]()
        p.check(got == s, 'text-' + where)
        p.check(tree(b.tag) == tree(a.tag), 'text-same')
    elif kind == 'history':
        history(p, cell)
    else:
        # files from Synfig itself
        src = os.path.join(os.path.dirname(os.path.dirname(
            sangfroid.__file__)), 'test', cell['f'])
        a = sangfroid.Animation(src)
        n = p.int('n', 1, 9999)
        which = p.choice('which', [True, False])
        if which:
            a.width = n
        else:
            a[0].desc = f'wombat {n}'
        b = there(p, a, p.choice('ext', ['sif', 'sifz']))
        p.check(tree(b.tag) == tree(a.tag), 'real-same')
        p.check(b.width == n if which else b[0].desc == f'wombat {n}',
                'real-changed')
        p.check([repr(x) for x in b] == [repr(x) for x in a], 'real-order')


def there(p, a, ext):
    """There and back again."""
    before = tree(a.tag)
    name = os.path.join(p.tmpdir(), 'x.' + ext)
    a.save(name)
    p.check(tree(a.tag) == before, 'saving-changes-nothing')
    p.check(kind_of(name) == ext, 'format')
    p.check(os.listdir(p.tmpdir()) == ['x.' + ext], 'no-litter')
    return sangfroid.Animation(name)


EXTS = ['sif', 'sifz', 'txt', '', 'si', 'sifzz', 'sfg', 'gz', 'bak.sif',
        'sif.sifz', 'sifz.sif', 'sif.bak']


def extension(p, i):
    ext = EXTS[i]
    spelt = ''
    for j, c in enumerate(ext):
        spelt += (c if c == '.' or '.' in ext[j:]
                  else p.char(f'c{j}', c + c.upper()))
    name = os.path.join(p.tmpdir(), 'x')
    if ext:
        name += '.' + spelt
    a = sangfroid.Animation()
    a.desc = 'wombat'
    before = str(a.tag)
    last = ext.split('.')[-1]
    got = p.outcome(lambda: a.save(name))
    p.check(str(a.tag) == before, 'ext-unchanged')
    if last in ('sif', 'sifz'):
        p.check(got[0] == 'ok', 'ext-accepted')
        p.check(os.path.exists(name), 'ext-name')
        p.check(kind_of(name) == last, 'ext-format')
        p.check(sangfroid.Animation(name).desc == 'wombat', 'ext-loads')
    else:
        p.check(got[0] == 'raise', 'ext-refused')
        p.check(os.listdir(p.tmpdir()) == [], 'ext-nothing')
        p.check(p.raises(lambda: a.save(), Exception) is not None,
                'ext-nowhere')


NAMES = [('sif', None), ('sifz', None), ('x', None), ('xsif', None),
         ('x.', None), ('x.sif.', None), ('x sif', None), ('x.sif~', None),
         ('x.sif', 'sif'), ('x.y.SifZ', 'sifz'), ('.x.sifz', 'sifz'),
         ('sif.sifz', 'sifz'), ('sifz.Sif', 'sif')]


def names(p):
    """Names, in this directory or in another."""
    d = p.tmpdir()
    name, want = p.choice('name', NAMES)
    inside = p.choice('inside', ['', '.', 'a.sif', 'a.sifz', 'a.txt', 'sif'])
    full = p.choice('full', [True, False])
    if inside not in ('', '.'):
        os.mkdir(os.path.join(d, inside))
    given = os.path.join(inside, name)
    if full:
        given = os.path.join(d, given)
    a = sangfroid.Animation()
    a.desc = 'wombat'
    old = os.getcwd()
    os.chdir(d)
    try:
        got = p.outcome(lambda: a.save(given))
    finally:
        os.chdir(old)
    there = os.listdir(os.path.join(d, inside))
    if want:
        p.check(got[0] == 'ok', 'name-accepted')
        p.check(there == [name], 'name')
        where = os.path.join(d, inside, name)
        p.check(kind_of(where) == want, 'name-format')
        p.check(sangfroid.Animation(where).desc == 'wombat', 'name-loads')
    else:
        p.check(got[0] == 'raise', 'name-refused')
        p.check(there == [], 'name-nothing')


def history(p, cell):
    d = p.tmpdir()
    files = {}                  # name -> (format, marker)
    where = None

    def put(name, fmt, marker):
        files[name] = (fmt, marker)
    start = cell['start']
    mark = 100
    if start == 'new':
        a = sangfroid.Animation()
        a.width = mark
    else:
        real = {'sif': 'one.sif', 'sifz': 'two.sifz',
                'misnamed': 'wrong.sifz'}[start]
        fmt = 'sifz' if start == 'sifz' else 'sif'
        b = sangfroid.Animation()
        b.width = mark
        tmp = os.path.join(d, 'tmp.' + fmt)
        b.save(tmp)
        os.rename(tmp, os.path.join(d, real))
        a = sangfroid.Animation(os.path.join(d, real))
        put(real, fmt, mark)
        where = (real, fmt)
    os.mkdir(os.path.join(d, 'dir.sif'))
    for i in range(cell['n']):
        op = cell['ops'][i] if i < len(cell['ops']) else p.choice(
            f'op{i}', OPS)
        mark += 1
        a.width = mark
        if op == 'surrogate':
            a.desc = '\ud800'
        before = str(a.tag)
        name = {'one': 'one.sif', 'two': 'two.sifz', 'none': None,
                'badext': 'x.txt', 'nodir': 'nowhere/x.sif',
                'isdir': 'dir.sif', 'sfg': 'x.sfg'}.get(op)
        if op in ('surrogate', 'full'):
            name = p.choice(f'name{i}', ['one.sif', 'two.sifz', None]
                            if op == 'full' else ['one.sif', None])
        good = op in ('one', 'two', 'none')
        if name is None and where is None:
            good = False
        limit = [10, 100, 0][i % 3] if op == 'full' else None
        path = None if name is None else os.path.join(d, name)
        got = p.outcome(lambda: attempt(a, path, limit))
        p.check(str(a.tag) == before, 'history-animation')
        if good:
            p.check(got[0] == 'ok', 'history-accepted')
            if name is not None:
                where = (name, name.split('.')[1])
            put(where[0], where[1], mark)
        else:
            p.check(got[0] == 'raise', 'history-refused')
        if op == 'surrogate':
            a.desc = 'x'
        check_files(p, d, files)


def attempt(a, path, limit):
    if limit is not None:
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
    try:
        if path is None:
            a.save()
        else:
            a.save(path)
    finally:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)


def check_files(p, d, files):
    p.check(sorted(os.listdir(d)) == sorted(list(files) + ['dir.sif']),
            'history-files')
    for name, (fmt, mark) in files.items():
        full = os.path.join(d, name)
        p.check(kind_of(full) == fmt, 'history-format')
        p.check(sangfroid.Animation(full).width == mark, 'history-contents')
