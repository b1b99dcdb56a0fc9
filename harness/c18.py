"""bywords."""
import os
import sys
from harness.lib import T
import sangfroid
import sangfroid.value as v
from sangfroid import layer as L
from bywords.adjust import adjust
from bywords.bywords import Bywords
import bywords.__main__ as program

BOUNDS = (
    'one or two subtitles, of one or two text layers, with up to 4 words '
    'in all; each word of up to 3 letters, any of a, B, 7, comma, e-acute; '
    'start any ms up to 10^6, duration up to 10^5 ms (and 0); word or letter at a '
    'time; groups and subtitles in either order, matching or not; the '
    'resulting timelines for starts of any second up to 99 and durations '
    'of any whole number of seconds (or of eighths) per letter up to 9, at '
    '24 or 25 FPS; the command on a whole file, with groups which are '
    'nested or not')
ASSUMPTIONS = ['no space at the ends of texts; in letters mode one space '
               'between words',
               'subtitles have the attributes pysrt gives them']
WORDS = {'a': ['1'], 'bc': ['2'], 'a b': ['1 1'], 'ab c': ['2 1'],
         'abc a': ['3 1'], 'a+b': ['1', '1'], 'ab c+a': ['2 1', '1'],
         'a+b ab': ['1', '1 2'], 'a b c': ['1 1 1'],
         'a b+bb c': ['1 1', '2 1']}
SPACED = ['a  b', 'ab   c d', 'a  b+c  d e']


class Thing:
    pass


class Sub:
    """A subtitle, as pysrt has them."""
    def __init__(self, start, duration, text):
        self.start, self.duration, self.end = Thing(), Thing(), Thing()
        self.start.ordinal = start
        self.duration.ordinal = duration
        self.end.ordinal = start + duration
        self.text = text


def cells(tier):
    out = []
    for w in WORDS:
        for letter in (False, True):
            out.append({'kind': 'times', 'w': w, 'letter': letter})
            out.append({'kind': 'adjust', 'w': w, 'letter': letter})
    for w in SPACED:
        out.append({'kind': 'times', 'w': w, 'letter': False})
        out.append({'kind': 'adjust', 'w': w, 'letter': False})
    for letter in (False, True):
        out.append({'kind': 'two', 'letter': letter})
        out.append({'kind': 'repeat', 'letter': letter})
        out.append({'kind': 'unmatched', 'letter': letter})
        out.append({'kind': 'same', 'letter': letter})
    out.append({'kind': 'letters'})
    out.append({'kind': 'tidy'})
    for letter in (False, True):
        out.append({'kind': 'marks', 'letter': letter})
    out.append({'kind': 'save'})
    out.append({'kind': 'before'})
    out.append({'kind': 'command', 'ext': 'sif'})
    for letter in (False, True):
        out.append({'kind': 'nested', 'letter': letter})
    out.append({'kind': 'command', 'ext': 'sifz'})
    return out


def make_group(a, name, descs):
    g = L.Group()
    g.desc = name
    texts = []
    for d in descs:
        t = L.Text('wombat')
        t.desc = d
        g.append(t)
        texts.append(t)
    a.append(g)
    return texts


def steps(desc, letter):
    """(what's shown, number of letters it adds)"""
    out = []
    if letter:
        n = 0
        for c in desc:
            n += 1
            if c != ' ':
                out.append((desc[:n], 1))
        return out
    shown = ''
    for w in desc.split(' '):
        shown = shown + (' ' if shown != '' else '') + w
        if w != '':
            out.append((shown, len(w)))
    return out


def expected(descs, start, duration, letter):
    """(layer number, time in ms, what's shown)"""
    all_ = [(i, s, n) for i, d in enumerate(descs)
            for s, n in steps(d, letter)]
    total = sum([n for _, _, n in all_])
    out = []
    sofar = 0
    for i, s, n in all_:
        out.append((i, start + duration * sofar / total, s))
        sofar += n
    return out


def run(p, cell):
    kind = cell['kind']
    letter = cell.get('letter', False)
    if kind == 'times':
        descs = cell['w'].split('+')
        start = p.int('start', 0, 1000000)
        duration = p.int('duration', 1, 100000)
        a = sangfroid.Animation()
        texts = make_group(a, 'bywords-x', descs)
        bw = Bywords([Sub(start, duration, ' '.join(descs))], a, letter)
        want = expected(descs, start, duration, letter)
        got = list(bw)
        p.check(len(got) == len(want), 'number')
        last = start
        for w, (i, ms, shown) in zip(got, want):
            p.check(w.item.tag is texts[i].tag, 'layer')
            p.check(w.text == shown, 'shown')
            p.check(p.close(w.time * 1000, ms, 1e-3), 'time')
            p.check(w.time * 1000 >= start - 1e-3, 'after-start')
            p.check(w.time * 1000 <= start + duration + 1e-3, 'before-end')
        for x, y in zip(got, got[1:]):
            p.check(x.time <= y.time, 'forwards')
        p.check(bw.no_matches == [], 'matched')
    elif kind == 'adjust':
        descs = cell['w'].split('+')
        a = scene()
        texts = make_group(a, 'bywords-x', descs)
        fps = p.choice('fps', ['24.000', '25.000'])
        a.tag['fps'] = fps
        total = sum([n for d in descs for _, n in steps(d, letter)])
        start = p.int('start', 0, 99)
        unit = p.choice('unit', [1000, 125])
        per = p.int('per', 0, 9)
        rest = others(a, texts)
        adjust([Sub(start * 1000, per * total * unit, ' '.join(descs))], a,
               letter_at_a_time=letter)
        want = expected(descs, start * 8, per * total * unit // 125, letter)
        for i, t in enumerate(texts):
            mine = [(ms * float(fps) / 8, s) for j, ms, s in want if j == i]
            shows(p, t, mine, 'adjust')
        p.check(others(a, texts) == rest, 'rest')
    elif kind == 'two':
        a = scene()
        first = p.choice('first', [True, False])
        if first:
            t1 = make_group(a, 'bywords-1', ['ab c'])
            t2 = make_group(a, 'Bywords 2', ['de', 'f'])
        else:
            t2 = make_group(a, 'Bywords 2', ['de', 'f'])
            t1 = make_group(a, 'bywords-1', ['ab c'])
        s1, s2 = p.int('s1', 0, 9), p.int('s2', 0, 9)
        d = p.int('d', 0, 3)
        subs = [Sub(s1 * 1000, d * 3000, 'Ab, c!'),
                Sub(s2 * 1000, 3000, 'DE F')]
        if p.choice('order', [True, False]):
            subs = subs[::-1]
        rest = others(a, t1 + t2)
        adjust(subs, a, letter_at_a_time=letter)
        shows(p, t1[0], [(ms * 24 / 1000, s) for _, ms, s in
                         expected(['ab c'], s1 * 1000, d * 3000, letter)],
              'two-1')
        want = expected(['de', 'f'], s2 * 1000, 3000, letter)
        for i in (0, 1):
            shows(p, t2[i], [(ms * 24 / 1000, s) for j, ms, s in want
                             if j == i], 'two-2')
        p.check(others(a, t1 + t2) == rest, 'two-rest')
    elif kind == 'repeat':
        # the same words again
        a = scene()
        t = make_group(a, 'bywords-1', ['ab c'])
        s1 = p.int('s1', 1, 9)
        s2 = p.int('s2', 13, 19)
        adjust([Sub(s1 * 1000, 3000, 'ab c'), Sub(s2 * 1000, 3000, 'ab c')],
               a, letter_at_a_time=letter)
        want = (expected(['ab c'], s1, 3, letter) +
                expected(['ab c'], s2, 3, letter))
        shows(p, t[0], [(ms * 24, s) for _, ms, s in want], 'repeat')
    elif kind == 'unmatched':
        a = scene()
        t = make_group(a, p.choice('name', ['bywords-1', 'other', '', None]),
                       ['ab c'])
        t2 = make_group(a, 'bywords-2', ['zz'])
        # (whatever they showed before)
        was = p.choice('was', ['plain', 'one', 'two'])
        for x in t2 + (t if was != 'plain' else []):
            if was != 'plain':
                x['text'].is_animated = True
            if was == 'two':
                x['text'].timeline[7] = 'old'
        text = p.text('x', 3, 4, 'abc ') if was == 'plain' else 'ab d'
        before = str(a.tag)
        bw = Bywords([Sub(1000, 2000, text)], a, letter)
        name = a[-2].desc
        if text == 'ab c' and name == 'bywords-1':
            p.check(bw.no_matches == [], 'match')
            p.check(len(list(bw)) > 0, 'match-words')
        else:
            p.check(bw.no_matches == [text], 'no-match')
            p.check(list(bw) == [], 'no-match-words')
            p.check(str(a.tag) == before, 'no-match-unchanged')
            adjust([Sub(1000, 2000, text)], a, letter_at_a_time=letter)
            p.check(str(a.tag) == before, 'no-match-unchanged')
            p.check(t[0].text.is_animated == (was != 'plain'), 'no-match-text')
    elif kind == 'same':
        # words which are all at once: the last of them is what's left
        a = scene()
        t = make_group(a, 'bywords-1', ['ab c'])
        s = p.int('s', 0, 99)
        adjust([Sub(s * 1000, 0, 'ab c')], a, letter_at_a_time=letter)
        shows(p, t[0], [(s * 24, 'ab c')], 'same')
    elif kind == 'letters':
        d = p.text('d', 1, 4, 'aB7')
        a = sangfroid.Animation()
        make_group(a, 'bywords-1', [d])
        bw = Bywords([Sub(0, 1000 * len(d), d)], a, True)
        got = list(bw)
        p.check(len(got) == len(d), 'letters')
        for i, w in enumerate(got):
            p.check(w.text == d[:i + 1], 'letters-shown')
            p.check(p.close(w.time, i, 1e-9), 'letters-time')
    elif kind == 'marks':
        # marks are parts of their words
        d = 'a' + p.text('d', 1, 2, "a-'_./;") + ' b' + p.text(
            'e', 0, 1, '-!?')
        a = sangfroid.Animation()
        make_group(a, 'bywords-1', [d])
        said = 'a' * len([c for c in d if c == 'a']) + ' b'
        bw = Bywords([Sub(500, 1000, said)], a, letter)
        want = expected([d], 500, 1000, letter)
        got = list(bw)
        p.check(len(got) == len(want), 'marks')
        for w, (_, ms, shown) in zip(got, want):
            p.check(w.text == shown, 'marks-shown')
            p.check(p.close(w.time * 1000, ms, 1e-3), 'marks-time')
    elif kind == 'tidy':
        # case and punctuation don't matter, letters do
        d = p.text('d', 1, 3, 'aB7,')
        x = p.text('x', 1, 3, 'Ab7!')
        p.assume(norm(d) != '' and norm(x) != '')
        a = sangfroid.Animation()
        make_group(a, 'bywords-1', [d])
        bw = Bywords([Sub(500, 1000, x)], a)
        if norm(d) == norm(x):
            p.check([w.text for w in bw] == [d], 'tidy')
            p.check(len(bw.no_matches) == 0, 'tidy')
        else:
            p.check(list(bw) == [], 'untidy')
            p.check(len(bw.no_matches) == 1, 'untidy')
    elif kind == 'command':
        command(p, cell['ext'])
    elif kind == 'nested':
        # texts among other layers, and in groups inside the group
        a = scene()
        g = L.Group()
        g.desc = p.choice('name', ['bywords', 'BYWORDS 2', 'Bywords-x'])
        a.append(g)
        shape = p.choice('shape', [0, 1, 2, 3])
        texts = []
        descs = ['ab', 'c', 'de f']
        for i, x in enumerate(descs):
            t = L.Text('wombat')
            t.desc = x
            texts.append(t)
        g.append(L.Circle())
        if shape == 3:
            for t in texts:
                g.append(t)
                g.append(L.Circle())
        else:
            for i, t in enumerate(texts):
                if i == shape:
                    h = L.Group()
                    h.desc = 'inner'
                    g.append(h)
                    h.append(L.Rotate())
                    h.append(t)
                else:
                    g.append(t)
        s, n = p.int('s', 0, 99), p.int('n', 0, 9)
        rest = others(a, texts)
        adjust([Sub(s * 1000, n * 6000, 'ab c de f')], a,
               letter_at_a_time=letter)
        want = expected(descs, s, n * 6, letter)
        for i, t in enumerate(texts):
            shows(p, t, [(ms * 24, x) for j, ms, x in want if j == i],
                  'nested')
        p.check(others(a, texts) == rest, 'nested-rest')
    elif kind == 'save':
        a = scene()
        t = make_group(a, 'bywords-1', ['ab \u00e9'])
        s, d = p.int('s', 0, 99), p.int('d', 1, 9)
        adjust([Sub(s * 1000, d * 3000, 'AB \u00c9')], a)
        ext = p.choice('ext', ['sif', 'sifz'])
        name = os.path.join(p.tmpdir(), 'x.' + ext)
        a.save(name)
        b = sangfroid.Animation(name)
        got = b.find(desc='ab \u00e9')
        shows(p, got, [(s * 24, 'ab'), ((s + 2 * d) * 24, 'ab \u00e9')],
              'saved')
    else:
        # whatever was there before is replaced
        a = scene()
        t = make_group(a, 'bywords-1', ['ab c'])[0]
        how = p.choice('how', ['animated', 'two', 'plain', 'bywords'])
        n = p.int('n', 0, 99)
        if how == 'animated':
            t.text.timeline[n] = 'old'
        elif how == 'two':
            t.text.timeline[n] = 'old'
            t['text'].timeline[n + 5] = 'older'
        elif how == 'bywords':
            adjust([Sub(5000, 3000, 'ab c')], a)
        s = p.int('s', 0, 99)
        adjust([Sub(s * 1000, 3000, 'ab c')], a)
        shows(p, t, [(s * 24, 'ab'), ((s + 2) * 24, 'ab c')], 'before')


class Argv:
    """Stands in for sys and pysrt, as the program sees them."""
    def __init__(self, subs):
        self.subs = subs
        self.opened = []

    def open(self, name, *args, **kwargs):
        self.opened.append(str(name))
        return self.subs


def command(p, ext):
    """The program itself, with files."""
    d = p.tmpdir()
    sif = os.path.join(d, 'x.y.' + ext)
    a = scene()
    make_group(a, 'bywords-x', ['ab c'])
    a.save(sif)
    rest = others(a, [a[-1][0]])
    s, n = p.int('s', 0, 99), p.int('n', 1, 9)
    srt = p.choice('srt', [None, 'other.srt'])
    letter = p.choice('letter', [None, '-l', '--letter'])
    loud = p.choice('loud', [None, '-v'])
    first = p.choice('first', [True, False])
    options = [x for x in (letter, loud) if x]
    names = [sif] + ([os.path.join(d, srt)] if srt else [])
    stub = Argv([Sub(s * 1000, n * 3000, 'AB c!')])
    old = program.pysrt, sys.argv
    program.pysrt = stub
    sys.argv = ['bywords'] + (options + names if first else names + options)
    try:
        program.main()
    finally:
        program.pysrt, sys.argv = old
    want = os.path.join(d, srt) if srt else os.path.join(d, 'x.y.srt')
    p.check(stub.opened == [want], 'which-subtitles')
    p.check(sorted(os.listdir(d)) == ['x.y.' + ext], 'which-files')
    b = sangfroid.Animation(sif)
    t = b[-1][0]
    shows(p, t, [(ms * 24, x) for _, ms, x in
                 expected(['ab c'], s, n * 3, bool(letter))], 'command')
    p.check(others(b, [t]) == rest, 'command-rest')


def norm(s):
    return ''.join([c for c in s.lower() if c in 'ab7'])


def scene():
    a = sangfroid.Animation()
    a.append(L.Circle())
    t = L.Text('ab c')
    t.desc = 'ab c'
    a.append(t)
    g = L.Group()
    g.desc = 'words'
    t = L.Text('ab c')
    t.desc = 'ab c'
    g.append(t)
    a.append(g)
    return a


def others(a, texts):
    """All but what the given layers show."""
    out = []
    tags = [t['text'].tag for t in texts]
    for t in a.tag.find_all(True):
        if any([t is x for x in tags]):
            continue
        if any([any([q is x for x in tags]) for q in t.parents]):
            continue
        out.append((t.name, sorted((k, str(x)) for k, x in t.attrs.items()),
                    str(t.string) if len(t.contents) == 1 and
                    t.contents[0].name is None else ''))
    return out


def shows(p, t, want, label):
    """want: [(frame, text)], of which later ones win."""
    final = []
    for f, s in [(0, '')] + want:
        if final and final[-1][0] == f:
            final[-1] = (f, s)
        else:
            final.append((f, s))
    got = list(t['text'].timeline)
    p.check(len(got) == len(final), label + '-waypoints')
    for w, (f, s) in zip(got, final):
        p.check(p.close(w.time.frames, f, 1e-6), label + '-when')
        p.check(w.value.value == s, label + '-what')
        p.check(w.before == 'constant' and w.after == 'constant',
                label + '-how')
