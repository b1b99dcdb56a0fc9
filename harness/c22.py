"""The template replacer."""
import os
from harness.lib import T
from sangfroid.template.replacer import Replacer

BOUNDS = (
    'files of up to 5 (thorough 6) lines, each of them a class, the '
    'beginning of a block (named a, named b, unnamed; indented or not), '
    'the end of one (indented or not), or anything else of up to 2 '
    'characters over x, space, #; replacement texts of up to 2 lines, each '
    'of up to 2 such characters; applied twice; with and without a last '
    'newline; all the files of a package of up to three directories')
ASSUMPTIONS = [
    'neither the replacement texts nor the old contents of a block contain '
    'lines which begin a class or begin or end a block']
LINES = ['other', 'A', 'B', 'a', '  a', 'b', '', '  ', 'end', '  end']


def cells(tier):
    out = []
    for n in range(0, 4):
        for fields in ['a', 'ab', 'AB']:
            out.append({'kind': 'file', 'n': n, 'fields': fields})
    for n in ([4, 5, 6] if tier == 'thorough' else [4, 5]):
        # files which get somewhere
        for first in LINES[:6]:
            out.append({'kind': 'long', 'n': n, 'first': first,
                        'fields': 'aAB'})
    out.append({'kind': 'text'})
    out.append({'kind': 'inner'})
    out.append({'kind': 'spelling'})
    out.append({'kind': 'names'})
    out.append({'kind': 'near'})
    out.append({'kind': 'missing'})
    out.append({'kind': 'all'})
    return out


NEAR = ['###{{{ foo', '###  {{{ foo', '## {{{ foo', '#### {{{ foo',
        '### {{ foo', '### { { { foo', '# {{{ foo', '{{{ foo', 'x ### {{{ foo',
        '\t### {{{ foo', '###}}}', '### }}', '## }}}', '###  }}}', '### } } }',
        '}}}', 'x ### }}}', '\t### }}}', '#class Bar:', ' class Bar:',
        'classBar:', 'Class Bar:', 'subclass Bar:', 'def foo():', '### foo']


def line_of(p, i, k):
    if k == 'other':
        return f'    x{i} = 3\n'
    if k in ('A', 'B'):
        return f'class {k}(object):\n'
    if k.strip() == 'end':
        return k[:-3] + '### }}}\n'
    return k[:len(k) - len(k.strip())] + '### {{{ ' + k.strip() + '\n'


def expected(kinds, lines, fields):
    """The new lines, or None if the file should be refused."""
    out = []
    cls = None
    block = None
    for k, line in zip(kinds, lines):
        name = k.strip()
        if name == 'end' and k != 'other':
            if block is None:
                return None
            out.append(' ' * block[1] + '### }}}\n')
            block = None
        elif k == 'other':
            if block is None or block[0] not in fields:
                out.append(line)
        elif k in ('A', 'B'):
            cls = k
            out.append(line)
        else:
            if block is not None:
                return None
            indent = len(k) - len(name)
            if name == '':
                name, cls = cls, None
            if not name:
                return None
            block = (name, indent)
            out.append(line)
            if name in fields:
                for x in fields[name].split('\n'):
                    out.append((' ' * indent + x).rstrip() + '\n')
    if block is not None:
        return None
    return out


def allowed(kinds):
    """Whether any class is inside a block."""
    inside = False
    for k in kinds:
        if k == 'other':
            continue
        if k.strip() == 'end':
            inside = False
        elif k in ('A', 'B'):
            if inside:
                return False
        else:
            inside = True
    return True


def read(name):
    with open(name, encoding='utf-8', newline='') as f:
        return f.read()


def write(name, s):
    with open(name, 'w', encoding='utf-8', newline='') as f:
        f.write(s)


def apply(p, text, fields, want, label):
    """Replaces, and compares with what's wanted."""
    d = p.tmpdir()
    name = os.path.join(d, 'wombat.py')
    write(name, text)
    r = Replacer(dict(fields))
    got = p.outcome(lambda: r.handle(name))
    after = read(name)
    p.check(sorted(os.listdir(d)) == ['wombat.py'], label + '-no-litter')
    if want is None:
        p.check(got[0] == 'raise' and isinstance(got[1], ValueError),
                label + '-refused')
        p.check(after == text, label + '-refused-unchanged')
        return
    p.check(got[0] == 'ok', label + '-accepted')
    p.check(after == want, label)
    r.handle(name)
    p.check(read(name) == want, label + '-twice')
    Replacer(dict(fields)).handle(name)
    p.check(read(name) == want, label + '-again')


def run(p, cell):
    kind = cell['kind']
    if kind == 'all':
        return all_files(p)
    if kind in ('file', 'long'):
        fields = {k: f'new {k} = 1\n\n  more {k}' for k in cell['fields']}
        kinds = []
        for i in range(cell['n']):
            if kind == 'long' and i == 0:
                k = cell['first']
            else:
                k = p.choice(f'k{i}', LINES)
            kinds.append(k)
            if kind == 'long':
                # those which end badly are among the shorter ones
                sofar = expected(kinds, [''] * len(kinds), {})
                ok = expected(kinds + ['end'], [''] * (len(kinds) + 1), {})
                p.assume(sofar is not None or ok is not None)
        p.assume(allowed(kinds))
        lines = [line_of(p, i, k) for i, k in enumerate(kinds)]
        want = expected(kinds, lines, fields)
        text = ''.join(lines)
        if want is not None:
            # ends of blocks are moved only if something's replaced
            want = ''.join(want if touched(kinds, fields) else lines)
        apply(p, text, fields, want, 'file')
    elif kind == 'text':
        # any text, in a block of any indent
        n = p.choice('indent', [0, 1, 4])
        t = [p.text(f't{i}', 0, 2, 'x #') for i in range(2)]
        new = t[0] if p.choice('lines', [1, 2]) == 1 else t[0] + '\n' + t[1]
        old = p.text('old', 0, 2, 'x #')
        pad = ' ' * n
        text = (f'class Foo:\n{pad}### {{{{{{\n{old}\n{pad}### }}}}}}\n'
                f'last\n')
        want = f'class Foo:\n{pad}### {{{{{{\n'
        for x in new.split('\n'):
            want += (pad + x).rstrip() + '\n'
        want += f'{pad}### }}}}}}\nlast\n'
        apply(p, text, {'Foo': new}, want, 'text')
    elif kind == 'inner':
        # lines outside blocks, and in blocks which aren't replaced
        x = p.text('x', 0, 2, 'x #\t')
        y = p.text('y', 0, 2, 'x #}')
        z = p.text('z', 0, 2, 'x {')
        end = p.choice('end', ['', '\n'])
        text = (f'{x}\n### {{{{{{ other\n{y}\n### }}}}}}\n'
                f'  ### {{{{{{ foo\nold\n  ### }}}}}}\n{z}{end}')
        want = text.replace('old', '  new')
        apply(p, text, {'foo': 'new'}, want, 'inner')
    elif kind == 'spelling':
        # spaces after the brackets, things after the name
        sp = p.choice('sp', ['', ' ', '   '])
        rest = p.choice('rest', ['', ' ', ' x', '  # y'])
        name = p.choice('name', ['foo', 'Foo_2', 'a1'])
        text = f'### {{{{{{{sp}{name}{rest}\nold\n    ### }}}}}}\n'
        want = f'### {{{{{{{sp}{name}{rest}\nnew\n### }}}}}}\n'
        apply(p, text, {name: 'new'}, want, 'spelling')
        last = f'### {{{{{{ {name}\nold\n### }}}}}}'
        apply(p, last, {name: 'new'},
              f'### {{{{{{ {name}\nnew\n### }}}}}}\n', 'no-newline')
    elif kind == 'near':
        # lines which are nearly marks, but aren't
        x = p.choice('x', NEAR)
        where = p.choice('where', ['out', 'kept', 'gone'])
        pre, new = p.choice('pre', ['', '  ']), p.text('new', 1, 1, 'xy#')
        new = 'z' + new
        ins = {k: x + '\n' if k == where else '' for k in
               ['out', 'kept', 'gone']}
        text = ('class Foo:\n{o}### {{{{{{ kept\n{k}### }}}}}}\n'
                '{p}### {{{{{{\n{g}old\n{p}### }}}}}}\n{o}end\n')
        a = text.format(o=ins['out'], k=ins['kept'], g=ins['gone'], p=pre)
        b = text.format(o=ins['out'], k=ins['kept'], g='', p=pre)
        apply(p, a, {'Foo': new, 'foo': 'no'},
              b.replace('old', pre + new), 'near')
    elif kind == 'names':
        # a block belongs to the class just before it, once
        c1 = p.choice('c1', ['A', 'B'])
        c2 = p.choice('c2', ['A', 'B', 'AB', 'a'])
        rest = p.choice('rest', [':', '(A):', '(object):'])
        blk = '    ### {{{\n    old\n    ### }}}\n'
        new = {'A': 'aa', 'B': 'bb'}

        def block(c):
            return blk.replace('old', new[c]) if c in new else blk
        text = f'class {c1}{rest}\n{blk}class {c2}{rest}\n{blk}'
        want = f'class {c1}{rest}\n{block(c1)}class {c2}{rest}\n{block(c2)}'
        apply(p, text, new, want, 'names')
        apply(p, f'class {c1}:\nclass {c2}:\n{blk}', new,
              f'class {c1}:\nclass {c2}:\n{block(c2)}', 'latest')
        apply(p, f'class {c1}:\n{blk}{blk}', new, None, 'twice-unnamed')
        apply(p, f'  class {c1}:\n{blk}', new, None, 'indented-class')
    else:
        # nothing to replace: not even rewritten
        d = p.tmpdir()
        name = os.path.join(d, 'wombat.py')
        text = '### {{{ a\n' + p.text('x', 0, 2, 'x #') + '\n  ### }}}\n'
        write(name, text)
        which = p.choice('which', [0, 1, 2])
        r = Replacer([None, {}, {'b': 'c'}][which])
        r.handle(name)
        p.check(read(name) == text, 'nothing')
        r.add('a', 'new')
        r.handle(name)
        p.check(read(name) == '### {{{ a\nnew\n### }}}\n', 'added')
        p.check(p.raises(lambda: r.handle(name + '.absent'), OSError)
                is not None, 'absent')


def touched(kinds, fields):
    cls = None
    for k in kinds:
        name = k.strip()
        if k == 'other' or name == 'end':
            continue
        if k in ('A', 'B'):
            cls = k
            continue
        if name == '':
            name, cls = cls, None
        if name in fields:
            return True
    return False


def all_files(p):
    """Every Python file under sangfroid, and nothing else."""
    d = p.tmpdir()
    names = ['sangfroid/x.py', 'sangfroid/p/y.py', 'sangfroid/p/q/z.py',
             'sangfroid/w.txt', 'other/v.py', 'u.py']
    new = p.text('new', 1, 2, 'xy#')
    has = {}
    for i, n in enumerate(names):
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        has[n] = p.choice(f'has{i}', ['A', 'B'] if i < 3 else ['A'])
        with open(os.path.join(d, n), 'w') as f:
            f.write(text_of(has[n], 'old'))
    r = Replacer({'A': new}) if p.choice('how', [True, False]) else None
    if r is None:
        r = Replacer()
        r.add('A', new)
    old = os.getcwd()
    os.chdir(d)
    try:
        r.handle_all_files()
    finally:
        os.chdir(old)
    for i, n in enumerate(names):
        with open(os.path.join(d, n)) as f:
            got = f.read()
        if i < 3 and has[n] == 'A':
            p.check(got == text_of('A', new), 'replaced')
        else:
            p.check(got == text_of(has[n], 'old'), 'left-alone')
    found = [os.path.relpath(os.path.join(x, f), d)
             for x, _, fs in os.walk(d) for f in fs]
    p.check(sorted(found) == sorted(names), 'no-other-files')


def text_of(name, contents):
    return f'class {name}:\n    ### {{{{{{\n    {contents}\n    ### }}}}}}\n'
