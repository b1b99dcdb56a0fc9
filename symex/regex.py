"""
A backtracking regular-expression matcher over strings with holes.

The pattern is parsed by the standard library's own parser (so the grammar is
Python's), and matched here over elements: concrete characters, CharHoles
(which fork on class membership, only when a class is actually tested) and
digit runs (consumed whole by a repeat of a class that contains all digits;
anything else splits the run into digits first).
"""
import re
import re._parser as sre_parse
import re._constants as sc
from symex import strings as st
from symex.core import C, Truncated

DIGITS = frozenset(range(48, 58))


class NeedSplit(Exception):
    def __init__(self, ch):
        self.ch = ch


class Unsupported(Exception):
    pass


_ASCII_ALL = frozenset(range(0, 0x250))


def _category(cat, ascii_only):
    name = str(cat).lower()
    neg = 'not_' in name
    if 'digit' in name:
        f = lambda c: c.isdecimal()
    elif 'space' in name:
        f = lambda c: c.isspace()
    elif 'word' in name:
        f = lambda c: c.isalnum() or c == '_'
    else:
        raise Unsupported(cat)
    if ascii_only:
        g = f
        f = lambda c: ord(c) < 128 and g(c)
    if neg:
        h = f
        f = lambda c: not h(c)
    return f


def in_class(av, flags):
    """A predicate on a single character for an IN node."""
    neg = False
    tests = []
    ign = bool(flags & re.I)
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            tests.append(lambda c, a=a: ord(c) == a)
        elif op is sc.RANGE:
            tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif op is sc.CATEGORY:
            tests.append(_category(a, bool(flags & re.A)))
        else:
            raise Unsupported(op)

    def test(c):
        r = any(t(c) for t in tests)
        if not r and ign:
            r = any(t(c.lower()) or t(c.upper()) for t in tests
                    if len(c.lower()) == 1 and len(c.upper()) == 1)
        return r != neg
    return test


class M:
    """A match object."""

    def __init__(self, matcher, pos, start, end, groups):
        self.pat = matcher
        self.string = matcher.text
        self._s, self._e = start, end
        self.g = dict(groups)
        self.re = matcher.pattern
        self.lastindex = max(self.g) if self.g else None

    def _one(self, n):
        if isinstance(n, str):
            n = self.pat.tree.state.groupdict[n]
        if n == 0:
            return self.pat.text[self._s:self._e]
        if n >= self.pat.tree.state.groups:
            raise IndexError('no such group')
        if n not in self.g:
            return None
        a, b = self.g[n]
        return self.pat.text[a:b]

    def group(self, *ns):
        if not ns:
            return self._one(0)
        if len(ns) == 1:
            return self._one(ns[0])
        return tuple(self._one(n) for n in ns)

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        out = []
        for i in range(1, self.pat.tree.state.groups):
            v = self._one(i)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {k: (default if self._one(i) is None else self._one(i))
                for k, i in self.pat.tree.state.groupdict.items()}

    def _fixed(self, i):
        return st.length(self.pat.text[:i])

    def start(self, n=0):
        if n == 0:
            return self._fixed(self._s)
        return self._fixed(self.g[n][0]) if n in self.g else -1

    def end(self, n=0):
        if n == 0:
            return self._fixed(self._e)
        return self._fixed(self.g[n][1]) if n in self.g else -1

    def span(self, n=0):
        return self.start(n), self.end(n)

    def __bool__(self):
        return True


class Matcher:
    def __init__(self, pattern, text):
        self.pattern = pattern
        self.flags = pattern.flags
        self.tree = sre_parse.parse(pattern.pattern,
                                    pattern.flags & ~re.U
                                    if isinstance(pattern.pattern, bytes)
                                    else pattern.flags)
        self.nodes = list(self.tree)
        self.text = st.expand(text)
        self.steps = 0

    # a position is an index, or (index, 'mid') inside a run

    def char_test(self, pos, test):
        """1 if the element at pos satisfies test (as one char), else 0"""
        if isinstance(pos, tuple):
            self.mid_digit(pos, test)
            return 0
        if pos >= len(self.text):
            return 0
        ch = self.text[pos]
        if ord(ch) < st.BASE:
            return 1 if test(ch) else 0
        h = st.hole(ch)
        if type(h) is st.CharHole:
            yes = frozenset(d for d in h.dom if test(chr(d)))
            return 1 if st.char_in(h, yes) else 0
        if type(h) is st.Run:
            if any(test(chr(d)) for d in DIGITS):
                raise NeedSplit(ch)
            return 0
        raise Unsupported('number in regex text')

    def mid_digit(self, pos, test):
        if any(test(chr(d)) for d in DIGITS):
            raise NeedSplit(self.text[pos[0]])

    def single(self, op, av):
        """A one-character test for a node, or None."""
        if op is sc.LITERAL:
            if self.flags & re.I:
                return lambda c: c.lower() == chr(av).lower()
            return lambda c: ord(c) == av
        if op is sc.NOT_LITERAL:
            return lambda c: ord(c) != av
        if op is sc.ANY:
            if self.flags & re.S:
                return lambda c: True
            return lambda c: c != '\n'
        if op is sc.IN:
            return in_class(av, self.flags)
        return None

    def match(self, nodes, pos, groups, k):
        """Backtracking matcher in continuation-passing style; k(pos, groups)
        returns a result or None."""
        self.steps += 1
        if self.steps > 20000:
            raise Truncated('regex budget')
        if not nodes:
            return k(pos, groups)
        (op, av), rest = nodes[0], nodes[1:]
        test = self.single(op, av)
        if test is not None:
            if self.char_test(pos, test):
                return self.match(rest, pos + 1, groups, k)
            return None
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported('inline flags')

            def after(p, g, pos=pos):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (self.idx(pos), self.idx(p))
                return self.match(rest, p, g, k)
            return self.match(list(sub), pos, groups, after)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.match(list(alt), pos, groups,
                               lambda p, g: self.match(rest, p, g, k))
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is sc.MAX_REPEAT
            sub = list(sub)
            t = self.single(*sub[0]) if len(sub) == 1 else None
            if t is not None:
                return self.repeat_single(t, lo, hi, greedy, rest, pos,
                                          groups, k)
            return self.repeat(sub, lo, hi, greedy, 0, pos, groups, rest, k,
                               None)
        if op is sc.AT:
            if self.at(av, pos):
                return self.match(rest, pos, groups, k)
            return None
        if op is sc.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            for ch in self.text[a:b]:
                if isinstance(pos, tuple) or pos >= len(self.text):
                    return None
                e = st.str_eq(self.text[pos], ch)
                if not bool(e):
                    return None
                pos += 1
            return self.match(rest, pos, groups, k)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                w = sub.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('lookbehind')
                p = self.idx(pos) - w[0]
                if p < 0 or st.variable(self.text[p:self.idx(pos)]):
                    if p >= 0:
                        for ch in self.text[p:self.idx(pos)]:
                            if ord(ch) >= st.BASE and \
                                    type(st.hole(ch)) is st.Run:
                                raise NeedSplit(ch)
                    r = None
                else:
                    r = self.match(list(sub), p, groups, lambda q, g: (q, g))
            else:
                r = self.match(list(sub), pos, groups, lambda q, g: (q, g))
            if (r is not None) == (op is sc.ASSERT):
                g = r[1] if r is not None else groups
                return self.match(rest, pos, g, k)
            return None
        raise Unsupported(op)

    def idx(self, pos):
        if isinstance(pos, tuple):
            raise NeedSplit(self.text[pos[0]])
        return pos

    def at(self, av, pos):
        n = len(self.text)
        if isinstance(pos, tuple):
            if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                return av is sc.AT_NON_BOUNDARY
            return False
        multi = bool(self.flags & re.M)
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if pos == 0:
                return True
            if av is sc.AT_BEGINNING and multi:
                return bool(self.char_test(pos - 1, lambda c: c == '\n'))
            return False
        if av is sc.AT_END_STRING:
            return pos == n
        if av is sc.AT_END:
            if pos == n:
                return True
            if multi or pos == n - 1:
                return bool(self.char_test(pos, lambda c: c == '\n'))
            return False
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = lambda c: c.isalnum() or c == '_'

            def word(i):
                if i < 0 or i >= n:
                    return False
                ch = self.text[i]
                if ord(ch) >= st.BASE and type(st.hole(ch)) is st.Run:
                    return True
                return bool(self.char_test(i, w))
            b = word(pos - 1) != word(pos)
            return b == (av is sc.AT_BOUNDARY)
        raise Unsupported(av)

    def repeat_single(self, test, lo, hi, greedy, rest, pos, groups, k):
        """Repeat of a one-character class, digit runs taken whole."""
        cur = pos
        if isinstance(cur, tuple):
            self.mid_digit(cur, test)
            if lo == 0:
                return self.match(rest, cur, groups, k)
            return None
        hi_ = None if hi == sc.MAXREPEAT else hi

        def take(cur):
            """next stop or None"""
            if cur >= len(self.text):
                return None
            ch = self.text[cur]
            h = st.hole(ch) if ord(ch) >= st.BASE else None
            if type(h) is st.Run:
                ds = [test(chr(d)) for d in DIGITS]
                if all(ds):
                    if hi_ is not None or lo > 1:
                        raise NeedSplit(ch)
                    return cur + 1, True
                if any(ds):
                    raise NeedSplit(ch)
                return None
            if self.char_test(cur, test):
                return cur + 1, False
            return None

        if not greedy:
            n = 0
            while True:
                if n >= lo:
                    r = self.match(rest, cur, groups, k)
                    if r is not None:
                        return r
                if hi_ is not None and n >= hi_:
                    return None
                nx = take(cur)
                if nx is None:
                    return None
                if nx[1]:
                    # stopping inside the run
                    if n + 1 >= lo:
                        r = self.match(rest, (cur, 'mid'), groups, k)
                        if r is not None:
                            return r
                cur = nx[0]
                n += 1
        trail = [(pos, None)]
        while hi_ is None or len(trail) - 1 < hi_:
            nx = take(cur)
            if nx is None:
                break
            if nx[1]:
                trail.append((nx[0], cur))
            else:
                trail.append((nx[0], None))
            cur = nx[0]
        while trail:
            p, run = trail[-1]
            if len(trail) - 1 < lo:
                return None
            r = self.match(rest, p, groups, k)
            if r is not None:
                return r
            if run is not None:
                r = self.match(rest, (run, 'mid'), groups, k)
                if r is not None:
                    return r
            trail.pop()
        return None

    def repeat(self, sub, lo, hi, greedy, n, pos, groups, rest, k, last):
        def more():
            if (hi != sc.MAXREPEAT and n >= hi) or (n >= lo and pos == last):
                return None
            return self.match(
                sub, pos, groups,
                lambda p, g: self.repeat(sub, lo, hi, greedy, n + 1, p, g,
                                         rest, k, pos))

        def stop():
            if n < lo:
                return None
            return self.match(rest, pos, groups, k)
        for f in ((more, stop) if greedy else (stop, more)):
            r = f()
            if r is not None:
                return r
        return None

    # -- driving ----------------------------------------------------------

    def try_at(self, pos, full=False, nonempty=False):
        def done(p, g):
            if isinstance(p, tuple):
                raise NeedSplit(self.text[p[0]])
            if full and p != len(self.text):
                return None
            if nonempty and p == pos:
                return None
            return (p, g)
        return self.match(self.nodes, pos, {}, done)

    def search_from(self, pos, nonempty_at=None):
        while pos <= len(self.text):
            r = self.try_at(pos, nonempty=(pos == nonempty_at))
            if r is not None:
                return M(self, pos, pos, r[0], r[1])
            if pos < len(self.text):
                ch = self.text[pos]
                if ord(ch) >= st.BASE and type(st.hole(ch)) is st.Run:
                    # starting inside the run
                    r = self.match(self.nodes, (pos, 'mid'), {},
                                   lambda p, g: (p, g))
                    if r is not None:
                        raise NeedSplit(ch)
            pos += 1
        return None

    def restart(self, f):
        for _ in range(50):
            try:
                return f()
            except NeedSplit as e:
                self.text = self.text.replace(e.ch, st.split_run(e.ch))
                self.steps = 0
        raise Truncated('regex splitting')

    def all(self):
        def go():
            out = []
            pos = 0
            ne = None
            while pos <= len(self.text):
                m = self.search_from(pos, ne)
                if m is None:
                    break
                out.append(m)
                pos = m._e
                # like re: an empty match may not follow directly on itself,
                # and may directly follow a non-empty match
                if m._e == m._s:
                    ne = pos
                else:
                    ne = None
            return out
        return self.restart(go)


def run(pattern, name, args, kw):
    """Lifted Pattern method."""
    if name == 'sub' or name == 'subn':
        names = ['repl', 'string', 'count']
    elif name == 'split':
        names = ['string', 'maxsplit']
    else:
        names = ['string', 'pos', 'endpos']
    b = dict(zip(names, args))
    b.update(kw)
    text = b['string']
    text = text if type(text) is str else str(text)
    m = Matcher(pattern, text)
    try:
        if name in ('match', 'search', 'fullmatch'):
            if b.get('pos') or 'endpos' in b:
                raise Unsupported('pos')

            def go():
                if name == 'search':
                    return m.search_from(0)
                r = m.try_at(0, full=(name == 'fullmatch'))
                return None if r is None else M(m, 0, 0, r[0], r[1])
            return m.restart(go)
        ms = m.all()
        t = m.text
        if name == 'finditer':
            return iter(ms)
        if name == 'findall':
            out = []
            for x in ms:
                g = x.groups(default='')
                out.append(x.group() if not g else
                           g[0] if len(g) == 1 else g)
            return out
        if name == 'split':
            out = []
            pos = 0
            mx = b.get('maxsplit', 0)
            for x in (ms[:mx] if mx else ms):
                out.append(t[pos:x._s])
                out.extend(x.groups())
                pos = x._e
            out.append(t[pos:])
            return out
        if name in ('sub', 'subn'):
            out = []
            pos = 0
            cnt = b.get('count', 0)
            repl = b['repl']
            use = ms[:cnt] if cnt else ms
            for x in use:
                out.append(t[pos:x._s])
                if callable(repl):
                    out.append(repl(x))
                elif '\\' in repl:
                    out.append(expand_template(repl, x))
                else:
                    out.append(repl)
                pos = x._e
            out.append(t[pos:])
            s = ''.join(out)
            return (s, len(use)) if name == 'subn' else s
    except Unsupported as e:
        pass
    st.note_concretised(f're.{name} with an unsupported pattern')
    args = [st.concrete(a) if isinstance(a, str) else a for a in args]
    kw = {k: (st.concrete(a) if isinstance(a, str) else a)
          for k, a in kw.items()}
    return getattr(pattern, name)(*args, **kw)


def expand_template(repl, m):
    def f(x):
        g = x.group(1) or x.group(2)
        if g.isdigit():
            return m.group(int(g)) or ''
        return m.group(g) or ''
    return re.sub(r'\\(\d)|\\g<(\w+)>', f, repl)
