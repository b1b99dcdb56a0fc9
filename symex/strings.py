"""
Strings with holes.

A symbolic string is an ordinary Python str in which some characters are
placeholders from a private-use plane (U+F0000 upwards).  Each placeholder
stands for

  CharHole  one character, a solver variable over a finite set of code points
  Num       the text of a symbolic number, as str(), repr() or a % conversion
            would write it (any length)
  Run       one or more decimal digits, part of an expanded Num

Because placeholders are legal characters of XML, of UTF-8 and of attribute
values, such strings go unharmed through Beautiful Soup, lxml, gzip and the
disk, which therefore run for real.  Operations of the code under test which
look inside strings are routed here (see lift.py); they fork on exactly the
distinctions they need.
"""
import math
import re
import z3
from fractions import Fraction
from symex import core
from symex.core import (C, Ctx, SymBool, SymInt, SymReal, mkbool, mkint,
                        mkreal, rv, iv, to_real, to_int, rounded,
                        round_half_even, fits, note_concretised, Truncated,
                        sym_and, as_bool_term)

BASE = 0xF0000
HOLE_RE = re.compile('[\U000F0000-\U0010FFFF]')
WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


def holed(s):
    return HOLE_RE.search(s) is not None


class CharHole:
    __slots__ = ('term', 'dom', 'ch')

    def __init__(self, term, dom):
        self.term = term
        self.dom = frozenset(dom)


class Num:
    __slots__ = ('kind', 'val', 'prec', 'ch')

    def __init__(self, kind, val, prec):
        self.kind, self.val, self.prec = kind, val, prec


class Q:
    """An exact rational: integer term N over integer D, or a Real term."""
    __slots__ = ('N', 'D', 'R')

    def __init__(self, N=None, D=1, R=None):
        self.N = None if N is None else z3.simplify(N)
        self.D, self.R = D, R

    def real(self):
        if self.N is None:
            return self.R
        t = z3.ToReal(self.N)
        return z3.simplify(t / rv(self.D) if self.D != 1 else t)

    def floor(self):
        if self.N is None:
            return z3.ToInt(self.R)
        return z3.simplify(self.N / self.D) if self.D != 1 else self.N

    def is_int(self):
        if self.N is None:
            return z3.IsInt(self.R)
        return self.N % self.D == 0 if self.D != 1 else z3.BoolVal(True)

    def frac(self):
        if self.N is None:
            return Q(R=z3.simplify(self.R - z3.ToReal(z3.ToInt(self.R))))
        return Q(self.N % self.D, self.D)

    def ge(self, f):
        f = Fraction(f)
        if self.N is None:
            return self.R >= rv(f)
        return self.N * f.denominator >= f.numerator * self.D

    def scale(self, f):
        f = Fraction(f)
        if self.N is None:
            return Q(R=z3.simplify(self.R * rv(f)))
        return Q(self.N * f.numerator, self.D * f.denominator)

    def add(self, o):
        if self.N is None or o.N is None:
            return Q(R=z3.simplify(self.real() + o.real()))
        L = math.lcm(self.D, o.D)
        return Q(self.N * (L // self.D) + o.N * (L // o.D), L)

    def neg(self):
        if self.N is None:
            return Q(R=z3.simplify(-self.R))
        return Q(-self.N, self.D)

    def rhe(self):
        if self.N is None:
            return round_half_even(self.R, None)
        return core.rhe_div(self.N, self.D)

    def rounded(self, k, B):
        if self.N is None:
            return rounded(self.R, None, k, B)
        if k == 0 and self.D == 1 and fits(0, B):
            return core.mkgrid(self.N, 0, B)
        return core.ratio_rounded(self.N, self.D, B)


def q_of(x):
    """The exact value of a SymReal."""
    if x.N is not None and x.err == 0:
        return Q(x.N, x.D)
    return Q(R=x.term)


class Run:
    """kind 'int': term is the Int value; 'fix': term an Int of nd digits,
    leading zeros kept; 'frac': term is the fraction 0.ddd, a Q"""
    __slots__ = ('kind', 'term', 'B', 'nd', 'ch')

    def __init__(self, kind, term, B=None, nd=None):
        self.kind, self.term, self.B, self.nd = kind, term, B, nd


def new_hole(h):
    c = C()
    ch = chr(BASE + c.next_hole)
    c.next_hole += 1
    c.holes[ch] = h
    h.ch = ch
    return ch


def hole(ch):
    return C().holes.get(ch)


def num_hole(kind, val, prec=None):
    c = C()
    if type(val) is SymReal and val.key is not None:
        t = val
        key = ('num', kind, prec, val.key)
    else:
        t = z3.simplify(val.term)
        key = ('num', kind, prec, t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    ch = new_hole(Num(kind, val, prec))
    c.memo[key] = (ch, t)
    return ch


def char_hole(term, dom):
    return new_hole(CharHole(term, dom))


def is_char(x):
    return len(x) == 1


# ---------------------------------------------------------------------------
# deciding characters


def char_in(h, codes):
    """Whether a CharHole is one of the codes; forks if both are possible."""
    inter = h.dom & codes
    if not inter:
        return False
    if inter == h.dom:
        return True
    other = h.dom - codes
    if len(inter) <= len(other):
        t = z3.Or(*[h.term == c for c in sorted(inter)])
        r = C().branch(t)
    else:
        t = z3.Or(*[h.term == c for c in sorted(other)])
        r = not C().branch(t)
    h.dom = inter if r else other
    return r


def char_value(h):
    """The concrete character; forks over the whole domain."""
    if len(h.dom) == 1:
        return chr(next(iter(h.dom)))
    v = C().pick_int(h.term, None, 'character')
    h.dom = frozenset([v])
    return chr(v)


def resolve(s, interesting):
    """
    Replaces placeholders of characters that turn out to be one of the
    interesting ones by these characters, so that what remains behaves like
    an ordinary character none of them.  Numbers are expanded if the
    interesting characters can occur in them.
    """
    if not holed(s):
        return s
    codes = frozenset(ord(c) for c in interesting)
    if not interesting:
        return s
    if any(c in '0123456789.-+eE' for c in interesting):
        s = expand(s)
        if any(c in '0123456789' for c in interesting):
            s = split_runs(s)
    out = []
    for ch in s:
        h = hole(ch) if ord(ch) >= BASE else None
        if type(h) is CharHole:
            if char_in(h, codes):
                ch = char_value(h)
            elif len(h.dom) == 1:
                ch = chr(next(iter(h.dom)))
        out.append(ch)
    return ''.join(out)


def concrete(s):
    """Everything concrete (forking; numbers are cut after a few values)."""
    if not holed(s):
        return s
    out = []
    for ch in s:
        h = hole(ch) if ord(ch) >= BASE else None
        if type(h) is CharHole:
            ch = char_value(h)
        elif type(h) is Num:
            ch = conc_num(h)
        elif type(h) is Run:
            ch = concrete(split_run(ch))
        out.append(ch)
    return ''.join(out)


def conc_num(h):
    v = h.val
    if type(v) is SymInt:
        v = v.__index__()
    else:
        v = v._conc()
    return native_num(h.kind, v, h.prec)


def native_num(kind, v, prec):
    if kind == 'd':
        return '%d' % v
    if kind == 'r':
        return repr(float(v))
    return ('%.' + str(prec) + kind) % v


# ---------------------------------------------------------------------------
# expanding numbers


def expand(s):
    """Num placeholders become sign, digit runs, point and exponent."""
    if not holed(s):
        return s
    out = []
    for ch in s:
        if ord(ch) >= BASE and type(hole(ch)) is Num:
            ch = expand_num(ch)
        out.append(ch)
    return ''.join(out)


def split_runs(s):
    out = []
    for ch in s:
        if ord(ch) >= BASE and type(hole(ch)) is Run:
            ch = split_run(ch)
        out.append(ch)
    return ''.join(out)


def chars_of(s):
    """Fully expanded: every element is a character or a CharHole."""
    return split_runs(expand(s))


def expand_num(ch):
    c = C()
    if ch in c.expansions:
        return c.expansions[ch]
    h = hole(ch)
    neg, body = _expand(h)
    full = ('-' if neg else '') + body
    c.expansions[ch] = full
    c.memo.setdefault(('unexp', body), (ch, neg))
    return full


def _int_run(term, B):
    t = z3.simplify(term)
    if z3.is_int_value(t):
        return str(t.as_long())
    return new_hole(Run('int', t, B))


def _decimal_digits(B):
    return len(str(int(B)))


def _expand(h):
    c = C()
    v = h.val
    if h.kind == 'd':
        neg = c.branch(v.term < 0)
        return neg, _int_run(-v.term if neg else v.term, v.B)
    x = v if type(v) is SymReal else to_real(v)
    neg = c.branch(x._is_neg())
    B = x.B
    if h.kind == 'f':
        p = h.prec
        if x.k == 0:
            a = q_of(x)
            i = _int_run((a.neg() if neg else a).floor(), B)
            return neg, i + '.' + '0' * p if p else i
        m = core.rhe_scaled(x, 10**p)
        if neg:
            m = -m
        if p == 0:
            return neg, _int_run(m, B)
        ip = _int_run(m / 10**p, None if B is None else B + 1)
        return neg, ip + '.' + new_hole(Run('fix', z3.simplify(m % 10**p),
                                            None, p))
    N = h.prec if h.kind == 'g' else 17
    if N == 0:
        N = 1
    j = decimals(x)
    tight = j is not None and B is not None and \
        _decimal_digits(B) + j <= min(N, 15)
    a = Q(x.N, x.D) if tight else q_of(x)
    if neg:
        a = a.neg()
    if c.branch(as_bool_term(x == 0)):
        return neg, '0' if h.kind == 'g' else '0.0'
    lim = N if h.kind == 'g' else 16
    exact = (x.k is not None and B is not None and
             _decimal_digits(B) + x.k <= (N if h.kind == 'g' else 15))
    if tight and j <= 4:
        return neg, _fixed_body(a, B, h.kind)
    exact = exact or tight
    if exact and x.k is not None and Fraction(1, 2**x.k) >= Fraction(1, 10000):
        return neg, _fixed_body(a, B, h.kind)
    if h.kind == 'r':
        if exact:
            P = a
        else:
            r = c.fresh('real', 'dec')
            at = a.real()
            c.fact(z3.And(r <= at * (1 + rv(core.U)),
                          r >= at * (1 - rv(core.U))))
            P = Q(R=r)
        if c.branch(z3.And(P.ge(Fraction(1, 10000)),
                           z3.Not(P.ge(10**16)))):
            return neg, _fixed_body(P, B, 'r')
        return neg, _exp_body(P, 'r')
    # %g with rounding: find the decade
    hi = 20 if B is None else _decimal_digits(B)
    e = None
    for d in range(hi, -31, -1):
        if c.branch(a.ge(Fraction(10)**d)):
            e = d
            break
    if e is None:
        note_concretised('number below 1e-30 written with %g', cut=True)
        raise Truncated('tiny number')
    sc = Fraction(10)**(N - 1 - e)
    m = a.scale(sc).rhe()
    P = Q(m).scale(1 / sc)
    if c.branch(m >= 10**N):
        e += 1
    if -4 <= e < lim:
        return neg, _fixed_body(P, B, 'g')
    return neg, _exp_body(P, 'g', e)


def decimals(x):
    """j if x is the nearest double to an ideal multiple of 10**-j."""
    if not core.single(x) or x.err == 0:
        return None
    for j in range(16):
        if 10**j % x.D == 0:
            return j
    return None


def _fixed_body(P, B, kind):
    c = C()
    Bi = None if B is None else int(B) + 1
    i = P.floor()
    if c.branch(P.is_int()):
        return _int_run(i, Bi) + ('.0' if kind == 'r' else '')
    return _int_run(i, Bi) + '.' + new_hole(Run('frac', P.frac()))


def _exp_body(P, kind, e=None):
    c = C()
    if e is None:
        for d in range(-5, -40, -1):
            if c.branch(P.ge(Fraction(10)**d)):
                e = d
                break
        else:
            raise Truncated('tiny number')
        if e == -5 and c.branch(P.ge(10**16)):
            raise Truncated('huge number')
    q = P.scale(1 / Fraction(10)**e)
    i = q.floor()
    if c.branch(q.is_int()):
        body = _int_run(i, 9)
    else:
        body = _int_run(i, 9) + '.' + new_hole(Run('frac', q.frac()))
    return body + 'e%+03d' % e


def split_run(ch):
    c = C()
    key = ('split', ch)
    if key in c.memo:
        return c.memo[key]
    r = hole(ch)
    if r.kind == 'int':
        n = 1
        while not c.branch(r.term < 10**n):
            n += 1
            if n > 25:
                raise Truncated('number too long')
        whole = r.term
    elif r.kind == 'fix':
        n = r.nd
        whole = r.term
    else:
        n = 1
        while not c.branch(r.term.scale(10**n).is_int()):
            n += 1
            if n > 20:
                note_concretised('fraction of more than 20 digits', cut=True)
                raise Truncated('fraction too long')
        whole = r.term.scale(10**n).floor()
    ds = [c.fresh('int', 'dg') for _ in range(n)]
    for d in ds:
        c.fact(z3.And(d >= 0, d <= 9))
    c.fact(whole == z3.Sum(*[d * 10**(n - 1 - i) for i, d in enumerate(ds)])
           if n > 1 else whole == ds[0])
    out = ''.join(char_hole(d + 48, range(48, 58)) for d in ds)
    c.memo[key] = out
    return out


# ---------------------------------------------------------------------------
# text of numbers


def fmt_conv(kind, v, flags='', width=0, prec=None):
    """One % conversion (kind in d,f,g,e,x,X,o,s,r,c) of a symbolic number."""
    if type(v) is SymBool:
        v = bool(v)
        return None
    if kind in ('d', 'i', 'u'):
        n = v.__trunc__() if type(v) is SymReal else v
        if type(n) is int:
            body = '%d' % n
        else:
            body = num_hole('d', n)
        if prec is not None:
            body = chars_of(body)
            sign = '-' if body.startswith('-') else ''
            d = body[len(sign):]
            body = sign + '0' * (prec - len(d)) + d
    elif kind in ('f', 'F', 'g', 'G', 'e', 'E'):
        x = to_real(v)
        p = 6 if prec is None else prec
        if kind in ('e', 'E'):
            note_concretised('%e of a symbolic number')
            x = x._conc()
            return ('%' + flags + (str(width) if width else '') +
                    '.%d%s' % (p, kind)) % x
        if kind in 'gG' and '#' in flags:
            return ('%' + flags + '.%d%s' % (p, kind)) % x._conc()
        body = num_hole(kind.lower(), x, p)
    elif kind in ('x', 'X', 'o'):
        if type(v) is not SymInt:
            raise TypeError('%%%s format: an integer is required, not %s' %
                            (kind, v.__class__.__name__))
        body = radix(v, 8 if kind == 'o' else 16, kind == 'X')
        if prec is not None:
            sign = '-' if body.startswith('-') else ''
            d = body[len(sign):]
            body = sign + '0' * (prec - len(d)) + d
    elif kind == 'c':
        return chr(v.__index__())
    else:
        body = str(v)
    if '+' in flags or ' ' in flags:
        e = expand(body)
        if not e.startswith('-'):
            body = ('+' if '+' in flags else ' ') + body
    return pad(body, flags, width, numeric=kind not in 'srac')


def pad(body, flags, width, numeric=True):
    if width and width > minlen(body):
        e = chars_of(body)
        if len(e) >= width:
            return body
        n = width - len(e)
        if '-' in flags:
            return body + ' ' * n
        if '0' in flags and numeric:
            if e[:1] in '+-' and e:
                return e[0] + '0' * n + e[1:]
            return '0' * n + body
        return ' ' * n + body
    return body


def minlen(s):
    return len(s)


def radix(v, base, upper):
    c = C()
    neg = c.branch(v.term < 0)
    t = -v.term if neg else v.term
    n = 1
    while not c.branch(t < base**n):
        n += 1
        if n > 16:
            raise Truncated('hex number too long')
    a = ord('A' if upper else 'a')
    ds = [c.fresh('int', 'hx') for _ in range(n)]
    for d in ds:
        c.fact(z3.And(d >= 0, d < base))
    c.fact(t == z3.Sum(*[d * base**(n - 1 - i) for i, d in enumerate(ds)])
           if n > 1 else t == ds[0])
    dom = list(range(48, 48 + min(base, 10))) + \
        [a + i for i in range(max(0, base - 10))]
    out = ''
    for d in ds:
        term = z3.If(d < 10, d + 48, d + (a - 10)) if base > 10 else d + 48
        ch = char_hole(z3.simplify(term), dom)
        C().memo[('hexdigit', ch)] = d
        out += ch
    return ('-' if neg else '') + out


FMT_RE = re.compile(
    r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ 0#]*)(?P<width>\*|\d+)?'
    r'(?:\.(?P<prec>\*|\d+)?(?P<dot>))?[hlL]?(?P<kind>[diouxXeEfFgGcrsa%])')


def has_sym(x):
    t = type(x)
    return t in (SymBool, SymInt, SymReal)


def percent(fmt, args):
    """fmt % args, lifted."""
    if type(fmt) is not str:
        if isinstance(fmt, str):
            fmt = str(fmt)
        else:
            return fmt % args
    mapping = None
    if isinstance(args, dict):
        mapping = args
        seq = [args]
    elif type(args) is tuple:
        seq = list(args)
    else:
        seq = [args]
    out = []
    pos = 0
    used = 0

    def nxt():
        nonlocal used
        if used >= len(seq):
            raise TypeError('not enough arguments for format string')
        used += 1
        return seq[used - 1]

    for m in FMT_RE.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        kind = m.group('kind')
        if kind == '%':
            out.append('%')
            continue
        flags = m.group('flags')
        if m.group('key') is not None:
            v = mapping[m.group('key')]
            used = len(seq)
            w, p = m.group('width'), m.group('prec')
        else:
            w = m.group('width')
            if w == '*':
                w = nxt()
            p = m.group('prec')
            if p == '*':
                p = nxt()
            v = nxt()
        width = int(w) if w else 0
        prec = int(p) if p is not None else (
            0 if m.group('dot') is not None else None)
        out.append(one_conv(kind, v, flags, width, prec))
    out.append(fmt[pos:])
    if mapping is None and used < len(seq):
        raise TypeError('not all arguments converted during string formatting')
    return ''.join(out)


def one_conv(kind, v, flags, width, prec):
    if type(v) is SymBool and kind in 'sr':
        v = bool(v)
    elif type(v) is SymBool:
        v = v._i()
    if kind in 'diufFgGeExXo' and not has_sym(v) and not \
            isinstance(v, (int, float, str)):
        if hasattr(v, '__float__') and kind in 'fFgGeE':
            v = v.__float__()
        elif hasattr(v, '__index__'):
            v = v.__index__()
        elif kind in 'diu' and hasattr(v, '__int__'):
            v = v.__int__()
    if has_sym(v):
        return fmt_conv(kind, v, flags, width, prec)
    if kind in 'sra':
        t = str(v) if kind == 's' else repr(v)
        if not holed(t):
            spec = '%' + flags + (str(width) if width else '') + \
                ('.%d' % prec if prec is not None else '') + 's'
            return spec % t
        if prec is not None:
            t = chars_of(t)[:prec]
        return pad(t, flags, width, numeric=False)
    if kind == 'c' and isinstance(v, str) and holed(v):
        if len(v) != 1:
            raise TypeError('%c requires int or char')
        return v
    spec = '%' + flags + (str(width) if width else '') + \
        ('.%d' % prec if prec is not None else '') + kind
    return spec % (v,)


SPEC_RE = re.compile(
    r'(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?'
    r'(?P<zero>0)?(?P<width>\d+)?(?P<grp>[,_])?(?:\.(?P<prec>\d+))?'
    r'(?P<kind>[bcdeEfFgGnosxX%])?$', re.S)


def fmt_value(v, spec):
    """format(v, spec) for a symbolic number or a string with holes."""
    if type(v) is SymBool:
        return format(bool(v), spec)
    if spec == '':
        return str(v)
    m = SPEC_RE.match(spec)
    if m is None:
        raise ValueError('Invalid format specifier')
    kind = m.group('kind')
    width = int(m.group('width') or 0)
    prec = m.group('prec')
    prec = int(prec) if prec is not None else None
    fill, align = m.group('fill') or ' ', m.group('align')
    if isinstance(v, str):
        if kind not in (None, 's'):
            raise ValueError('Unknown format code')
        body = v
        if prec is not None:
            body = chars_of(body)[:prec]
        if m.group('zero'):
            fill = '0'
        return _align(body, width, fill, align or '<')
    if m.group('grp') or kind in ('%', 'n', 'c', 'b'):
        return format(v._conc() if type(v) is SymReal else v.__index__(), spec)
    flags = (m.group('sign') or '').replace('-', '')
    if kind is None:
        if prec is not None:
            kind = 'g'
        else:
            body = str(v)
            if flags:
                e = expand(body)
                if not e.startswith('-'):
                    body = flags + body
    if kind is not None:
        body = fmt_conv(kind, v, flags, 0, prec)
    if m.group('zero') and not align:
        return pad(body, '0', width)
    return _align(body, width, fill, align or '>')


def _align(body, width, fill, align):
    if width <= minlen(body):
        return body
    e = chars_of(body)
    n = width - len(e)
    if n <= 0:
        return body
    if align == '<':
        return body + fill * n
    if align == '^':
        return fill * (n // 2) + body + fill * (n - n // 2)
    if align == '=' and e[:1] in ('+', '-'):
        return e[0] + fill * n + e[1:]
    return fill * n + body


# ---------------------------------------------------------------------------
# numbers of text


def digit_term(ch, base=10):
    """Int term of the digit a CharHole or character stands for."""
    if ord(ch) < BASE:
        return iv(int(ch, base))
    c = C()
    if ('hexdigit', ch) in c.memo:
        return c.memo[('hexdigit', ch)]
    h = hole(ch)
    t = h.term
    if base <= 10 or all(48 <= d < 58 for d in h.dom):
        return t - 48
    key = ('hd', ch)
    if key not in c.memo:
        if all(not (65 <= d < 91) for d in h.dom):
            e = z3.If(t < 58, t - 48, t - 87)
        else:
            e = z3.If(t < 58, t - 48, z3.If(t < 97, t - 55, t - 87))
        c.memo[key] = z3.simplify(e)
    return c.memo[key]


def digits_value(tokens, base=10):
    """Int term of a sequence of digit characters / holes, and a bound."""
    if len(tokens) == 1 and ord(tokens[0]) >= BASE:
        r = hole(tokens[0])
        if type(r) is Run and r.kind in ('int', 'fix'):
            return r.term, r.B
    toks = split_runs(''.join(tokens))
    t = iv(0)
    for i, ch in enumerate(toks):
        t = t + digit_term(ch, base) * (base ** (len(toks) - 1 - i))
    return z3.simplify(t), base ** len(toks)


def classify(s, classes):
    """
    Resolves a string to one whose CharHoles are digits only, everything else
    concrete; classes says which characters are kept symbolic.
    """
    codes = frozenset(ord(c) for c in classes)
    out = []
    for ch in s:
        if ord(ch) >= BASE:
            h = hole(ch)
            if type(h) is CharHole and not char_in(h, codes):
                ch = char_value(h)
        out.append(ch)
    return ''.join(out)


def parse_float(s):
    st = strip(s)
    if not holed(st):
        return float(st)
    c = C()
    sign = ''
    body = st
    if body[:1] in ('-', '+'):
        sign, body = body[0], body[1:]
    if len(body) == 1:
        h = hole(body)
        if type(h) is Num:
            if sign and not (h.kind in 'dfgr' and
                             c.branch(as_bool_term(h.val >= 0))):
                float('--1')
            v = num_value(h)
            return -v if sign == '-' else v
    if ('unexp', body) in c.memo:
        ch, neg = c.memo[('unexp', body)]
        v = num_value(hole(ch))
        if neg:
            v = -v
        return -v if sign == '-' else v
    st = classify(expand(st), '0123456789')
    rep = HOLE_RE.sub('7', st)
    float(rep)                      # ValueError exactly if the shape is bad
    m = re.match(r'^([-+]?)([\d_\U000F0000-\U0010FFFF]*)'
                 r'(?:\.([\d_\U000F0000-\U0010FFFF]*))?(?:[eE]([-+]?)'
                 r'([\d_\U000F0000-\U0010FFFF]+))?$', st)
    if m is None:
        return float(rep)           # inf, nan
    sg, ip, fp, es, ep = m.groups()
    ip = (ip or '').replace('_', '')
    fp = (fp or '').replace('_', '')
    t = Q(iv(0))
    B = Fraction(0)
    if ip:
        a, b = digits_value(ip)
        t = Q(a)
        B = None if b is None else Fraction(b)
    integral = True
    if fp and fp.strip('0'):
        integral = False
        if B is not None:
            B += 1
        if len(fp) == 1 and ord(fp) >= BASE and \
                type(hole(fp)) is Run and hole(fp).kind != 'int':
            t = t.add(frac_q(hole(fp)))
        else:
            fp = split_runs(fp)
            a, b = digits_value(fp)
            t = t.add(Q(a, 10**len(fp)))
    if ep:
        e = int(concrete(ep))
        if es == '-':
            e = -e
        if abs(e) > 40:
            raise Truncated('large exponent')
        t = t.scale(Fraction(10)**e)
        B = None if B is None else B * Fraction(10)**e
        integral = integral and e >= 0
    if sg == '-':
        t = t.neg()
    return t.rounded(0 if integral else None, B)


def frac_q(r):
    return r.term if r.kind == 'frac' else Q(r.term, 10**r.nd)


def num_value(h):
    """float(text of h)"""
    v = h.val
    if h.kind == 'd':
        return to_float(v)
    x = to_real(v)
    if h.kind == 'r':
        return x
    if h.kind == 'f':
        if x.k is not None and x.k <= h.prec and fits(x.k, x.B):
            return x
        p = h.prec
        if x.k is not None and x.k <= p:
            return x
        if core.single(x) and 10**p % x.D == 0 and x.err * 10**p * 2 < 1:
            return x
        # rounding half to even is the same either side of zero
        m = core.rhe_scaled(x, 10**p)
        B = None if x.B is None else x.B + 1
        return Q(m, 10**p).rounded(None, B)
    # g
    N = max(1, h.prec)
    j = decimals(x)
    if j is not None and x.B is not None and \
            _decimal_digits(x.B) + j <= min(N, 15):
        return x
    if x.k is not None and x.B is not None and \
            _decimal_digits(x.B) + x.k <= N:
        return x
    c = C()
    full = expand_num(h.ch)
    neg = full.startswith('-')
    body = full[1:] if neg else full
    P = text_exact(body)
    B = None if x.B is None else x.B + 1
    if neg:
        P = P.neg()
    return P.rounded(None, B)


def text_exact(body):
    m = re.match(r'^([^.e]*)(?:\.([^e]*))?(?:e(.*))?$', body, re.S)
    ip, fp, ep = m.groups()
    a, _ = digits_value(ip)
    t = Q(a)
    if fp:
        if len(fp) == 1 and ord(fp) >= BASE:
            t = t.add(frac_q(hole(fp)))
        else:
            t = t.add(Q(iv(int(fp)), 10**len(fp)))
    if ep:
        t = t.scale(Fraction(10)**int(ep))
    return t


def to_float(v):
    x = to_real(v)
    if x.N is not None and (fits(0, x.B) or x.B is None):
        return core.mkgrid(x.N, 0, x.B) if x.D == 1 else x
    if fits(0, x.B) or x.B is None:
        return mkreal(x.term, x.k, x.B)
    return rounded(x.term, None, 0, x.B)


def parse_int(s, base=10):
    st = strip(s)
    if not holed(st):
        return int(st, base)
    c = C()
    sign = ''
    body = st
    if body[:1] in ('-', '+'):
        sign, body = body[0], body[1:]
    if base == 10 and len(body) == 1:
        h = hole(body)
        if type(h) is Num and h.kind == 'd':
            if sign and not c.branch(h.val.term >= 0):
                int('--1')
            return -h.val if sign == '-' else h.val
    if base == 10 and ('unexp', body) in c.memo:
        ch, neg = c.memo[('unexp', body)]
        h = hole(ch)
        if h.kind == 'd':
            v = -h.val if neg else h.val
            return -v if sign == '-' else v
    st = expand(st)
    if base == 16:
        ok = '0123456789abcdefABCDEF'
    elif base <= 10 and base > 1:
        ok = '0123456789'[:base]
    else:
        return int(concrete(st), base)
    st = classify(st, ok)
    rep = HOLE_RE.sub('1', st)
    int(rep, base)
    sg = st[0] if st[:1] in ('-', '+') else ''
    body = st[len(sg):].replace('_', '')
    if base == 16 and body[:2] in ('0x', '0X'):
        body = body[2:]
    t, B = digits_value(body, base)
    return mkint(-t if sg == '-' else t, B)


# ---------------------------------------------------------------------------
# comparisons


def char_eq_term(a, b):
    """Bool term (or Python bool) that two single characters are equal."""
    ha = hole(a) if ord(a) >= BASE else None
    hb = hole(b) if ord(b) >= BASE else None
    if ha is None and hb is None:
        return a == b
    if a == b:
        return True
    if ha is None:
        a, b, ha, hb = b, a, hb, ha
    if hb is None:
        if ord(b) not in ha.dom:
            return False
        if len(ha.dom) == 1:
            return True
        return ha.term == ord(b)
    if not (ha.dom & hb.dom):
        return False
    return ha.term == hb.term


def variable(s):
    """Whether the string contains elements of unknown length."""
    for ch in s:
        if ord(ch) >= BASE and type(hole(ch)) is not CharHole:
            return True
    return False


def conj_eq(a, b):
    if len(a) != len(b):
        return False
    ts = []
    for x, y in zip(a, b):
        t = char_eq_term(x, y)
        if t is False:
            return False
        if t is not True:
            ts.append(t)
    if not ts:
        return True
    return mkbool(z3.And(*ts))


def str_eq(a, b):
    a = a if type(a) is str else str(a)
    b = b if type(b) is str else str(b)
    if a == b:
        return True
    if not holed(a) and not holed(b):
        return False
    va, vb = variable(a), variable(b)
    if not va and not vb:
        return conj_eq(a, b)
    # strip the common ends
    while a and b and a[0] == b[0]:
        a, b = a[1:], b[1:]
    while a and b and a[-1] == b[-1]:
        a, b = a[:-1], b[:-1]
    if a == b:
        return True
    if not a or not b:
        return False
    if len(a) == 1 and len(b) == 1:
        ha, hb = hole(a), hole(b)
        if type(ha) is Num and type(hb) is Num and ha.kind == hb.kind and \
                ha.prec == hb.prec:
            if ha.kind in 'dr':
                return ha.val == hb.val
    for x, y in ((a, b), (b, a)):
        if len(x) == 1 and not holed(y):
            h = hole(x)
            if type(h) is Num and h.kind == 'd':
                if not re.fullmatch('0|-?[1-9][0-9]*', y, re.A):
                    return False
                return h.val == int(y)
    a, b = expand(a), expand(b)
    if len(a) == len(b):
        # same structure of runs: compare piecewise
        ok, ts = True, []
        for x, y in zip(a, b):
            hx = hole(x) if ord(x) >= BASE else None
            hy = hole(y) if ord(y) >= BASE else None
            if x == y:
                continue
            if type(hx) is Run and type(hy) is Run and hx.kind == hy.kind \
                    and hx.nd == hy.nd:
                ts.append(hx.term.real() == hy.term.real()
                          if hx.kind == 'frac' else hx.term == hy.term)
            elif type(hx) is Run or type(hy) is Run:
                ok = False
                break
            else:
                t = char_eq_term(x, y)
                if t is False:
                    ts = None
                    break
                if t is not True:
                    ts.append(t)
        if ok:
            # sound only if every run faces a run
            if ts is None:
                if not any(type(hole(x)) is Run for x in a + b
                           if ord(x) >= BASE):
                    return False
            else:
                return mkbool(z3.And(*ts)) if ts else True
    return conj_eq(split_runs(a), split_runs(b))


def str_lt(a, b):
    """a < b, lexicographically."""
    a, b = chars_of(str(a)), chars_of(str(b))
    for x, y in zip(a, b):
        t = char_eq_term(x, y)
        if t is True:
            continue
        if t is not False and C().branch(t):
            continue
        hx = hole(x) if ord(x) >= BASE else None
        hy = hole(y) if ord(y) >= BASE else None
        tx = hx.term if hx else iv(ord(x))
        ty = hy.term if hy else iv(ord(y))
        return C().branch(tx < ty)
    return len(a) < len(b)


# ---------------------------------------------------------------------------
# str methods


def strip(s, chars=None):
    cs = WS if chars is None else chars
    return resolve(s, cs).strip(chars)


_CASE = {'lower': str.lower, 'upper': str.upper, 'casefold': str.casefold,
         'swapcase': str.swapcase}


def case_map(s, name):
    f = _CASE[name]
    out = []
    for ch in s:
        if ord(ch) < BASE:
            out.append(f(ch))
            continue
        h = hole(ch)
        if type(h) is Num:
            if h.kind == 'd' or name in ('lower', 'casefold'):
                out.append(ch)
            else:
                out.append(case_map(expand(ch), name))
            continue
        if type(h) is Run:
            out.append(ch)
            continue
        img = {d: f(chr(d)) for d in h.dom}
        if any(len(x) != 1 for x in img.values()):
            out.append(f(char_value(h)))
            continue
        ch2 = {d: ord(x) for d, x in img.items()}
        if all(d == e for d, e in ch2.items()):
            out.append(ch)
            continue
        c = C()
        key = ('case', name, ch)
        if key not in c.memo:
            delta = {}
            for d, e in ch2.items():
                delta.setdefault(e - d, []).append(d)
            t = h.term
            for dl, ds in delta.items():
                if dl:
                    t = z3.If(z3.Or(*[h.term == d for d in sorted(ds)]),
                              h.term + dl, t)
            c.memo[key] = char_hole(t, ch2.values())
        out.append(c.memo[key])
    return ''.join(out)


_PRED = ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace',
         'isidentifier', 'isupper', 'islower', 'isascii', 'isprintable',
         'istitle')
_ARGCHARS = ('split', 'rsplit', 'partition', 'rpartition', 'replace', 'find',
             'rfind', 'index', 'rindex', 'count', 'startswith', 'endswith',
             'removeprefix', 'removesuffix')


def str_method(s, name, args, kw):
    """A str method, where s or an argument has holes."""
    base = s if type(s) is str else str(s)
    if name in _CASE:
        return case_map(base, name)
    if name in ('strip', 'lstrip', 'rstrip'):
        ch = args[0] if args else None
        if ch is not None:
            ch = concrete(ch)
        s2 = resolve(base, WS if ch is None else ch)
        return getattr(s2, name)(ch)
    if name in ('encode', 'join', '__str__', '__add__', '__hash__'):
        return getattr(base, name)(*args, **kw)
    if name == 'format':
        return format_method(base, args, kw)
    if name == 'format_map':
        return format_method(base, (), args[0])
    if name == 'splitlines':
        return resolve(base, '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029'
                       ).splitlines(*args, **kw)
    if name in _PRED:
        e = chars_of(base)
        out = []
        for ch in e:
            if ord(ch) >= BASE:
                h = hole(ch)
                yes = frozenset(d for d in h.dom if getattr(chr(d), name)())
                char_in(h, yes)
                # a representative of the class that was decided
                r = chr(min(h.dom))
                if not all(getattr(chr(d), name)() == getattr(r, name)()
                           for d in h.dom):
                    r = char_value(h)
                ch = r
            out.append(ch)
        if name in ('isidentifier', 'isupper', 'islower', 'istitle'):
            return getattr(concrete(base), name)()
        return getattr(''.join(out), name)()
    if name in _ARGCHARS:
        if not args:
            args2 = kw.get('sep')
            if name in ('split', 'rsplit') and args2 is None:
                return getattr(resolve(base, WS), name)(*args, **kw)
            args = (args2,)
            kw = {k: v for k, v in kw.items() if k != 'sep'}
        a0 = args[0]
        if a0 is None and name in ('split', 'rsplit'):
            return getattr(resolve(base, WS), name)(*args, **kw)
        if isinstance(a0, tuple):
            for x in a0:
                if str_method(base, name, (x,) + args[1:], kw):
                    return True
            return False
        if not isinstance(a0, str):
            return getattr(base, name)(*args, **kw)
        if name in ('startswith', 'endswith') and len(args) == 1:
            return affix(base, a0, name == 'startswith')
        if name in ('removeprefix', 'removesuffix'):
            if bool(affix(base, a0, name == 'removeprefix')):
                n = length(a0)
                e = chars_of(base)
                return e[n:] if name == 'removeprefix' else e[:len(e) - n]
            return base
        a0 = concrete(a0)
        b2 = resolve(base, a0)
        if name in ('find', 'rfind', 'index', 'rindex') or len(args) > 1 and \
                name in ('count', 'startswith', 'endswith'):
            b2 = chars_of(b2) if variable(b2) else b2
        rest = args[1:]
        return getattr(b2, name)(a0, *rest, **kw)
    if name == '__contains__':
        return contains(base, args[0])
    if name == '__eq__':
        return str_eq(base, args[0]) if isinstance(args[0], str) else False
    if name in ('ljust', 'rjust', 'center', 'zfill', 'expandtabs'):
        return getattr(chars_of(base), name)(*args, **kw)
    if name == '__len__':
        return length(base)
    if name == '__getitem__':
        return str_getitem(base, args[0])
    note_concretised(f'str.{name} of a symbolic string')
    args = [concrete(a) if isinstance(a, str) else a for a in args]
    return getattr(concrete(base), name)(*args, **kw)


def affix(s, a, start):
    """startswith / endswith as one condition where lengths are known."""
    if a == '':
        return True
    if variable(a):
        a = chars_of(a)
    n = len(a)
    # the part of s that matters
    seq = s if start else s[::-1]
    need = a if start else a[::-1]
    got = []
    for i, ch in enumerate(seq):
        if len(got) >= n:
            break
        h = hole(ch) if ord(ch) >= BASE else None
        if h is None or type(h) is CharHole:
            got.append(ch)
        else:
            e = chars_of(s)
            seq = e if start else e[::-1]
            got = list(seq[:n])
            break
    if len(got) < n:
        return False
    return conj_eq(''.join(got[:n]), need)


def contains(s, sub):
    """sub in s"""
    if sub == '':
        return True
    if not holed(s) and not holed(sub):
        return sub in s
    if sub in s:
        return True
    if not holed(sub) and not any(c in '0123456789.-+eE' for c in sub):
        # numbers cannot contain it; only characters matter
        if not any(type(hole(ch)) is CharHole for ch in s
                   if ord(ch) >= BASE):
            return False
        e = s
    else:
        e = chars_of(s)
        sub = chars_of(sub)
    n = len(sub)
    ts = []
    for i in range(len(e) - n + 1):
        w = e[i:i + n]
        if variable(w):
            continue
        t = conj_eq(w, sub)
        if t is True:
            return True
        if t is not False:
            ts.append(t.term)
    if not ts:
        return False
    return mkbool(z3.Or(*ts))


def length(s):
    if variable(s):
        s = chars_of(s)
    return len(s)


def str_getitem(s, k):
    if not variable(s):
        return s[k]
    if type(k) in (SymInt, SymBool):
        k = k.__index__()
    if type(k) is int:
        seq = s if k >= 0 else s[::-1]
        n = k if k >= 0 else -k - 1
        if n < len(seq) and not variable(seq[:n + 1]):
            return seq[n]
        return chars_of(s)[k]
    if isinstance(k, slice):
        st, en, step = k.start, k.stop, k.step
        st = st.__index__() if st is not None else None
        en = en.__index__() if en is not None else None
        if step in (None, 1):
            def ok(i):
                if i is None or i == 0:
                    return True
                if i > 0:
                    return i <= len(s) and not variable(s[:i])
                return -i <= len(s) and not variable(s[i:])
            if ok(st) and ok(en):
                # both ends are in parts of known length; a positive and a
                # negative end can only cross if the string is short
                if st is None or en is None or (st >= 0) == (en >= 0) or \
                        (st or 0) - (en or 0) <= len(s):
                    return s[st:en]
        return chars_of(s)[slice(st, en, step)]
    return s[k]


def format_method(s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        else:
            head = re.match(r'[^.\[]*', field).group()
            if head.isdigit():
                v = args[int(head)]
            elif head == '':
                v = args[auto]
                auto += 1
            else:
                v = kw[head]
            for attr, idx in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]',
                                        field[len(head):]):
                if attr:
                    v = getattr(v, attr)
                else:
                    v = v[int(idx) if idx.isdigit() else idx]
        if spec and '{' in spec:
            spec = format_method(spec, args[auto:], kw)
        out.append(fmt_any(v, conv, spec or ''))
    return ''.join(out)


def fmt_any(v, conv, spec):
    if conv == 's':
        v = str(v)
    elif conv in ('r', 'a'):
        v = repr_any(v)
    if has_sym(v):
        return fmt_value(v, spec)
    if isinstance(v, str) and holed(v):
        return fmt_value(v, spec) if spec else str(v)
    return format(v, spec)


def repr_any(v):
    if isinstance(v, str) and holed(str(v)):
        s = resolve(str(v), '\'"\\\n\t\r')
        return _repr_holed(s)
    return repr(v)


def _repr_holed(s):
    q = '"' if "'" in s and '"' not in s else "'"
    out = []
    for ch in s:
        if ord(ch) >= BASE:
            out.append(ch)
        else:
            r = repr(ch)[1:-1]
            if ch == "'" and q == '"':
                r = "'"
            elif ch == "'":
                r = "\\'"
            elif ch == '"':
                r = '"'
            out.append(r)
    return q + ''.join(out) + q


# ---------------------------------------------------------------------------
# concrete text under a model


def under_model(s, ev):
    """
    The concrete text of a symbolic string under a model; ev(term) gives the
    exact rational value of a term.
    """
    if not isinstance(s, str) or not holed(s):
        return s
    c = C()
    out = []
    for ch in s:
        h = hole(ch) if ord(ch) >= BASE else None
        if h is None:
            out.append(ch)
        elif type(h) is CharHole:
            out.append(chr(int(ev(h.term))))
        elif type(h) is Num:
            f = core.value_under(h.val, ev)
            if type(h.val) is SymInt:
                f = int(f)
            else:
                f = f.numerator / f.denominator
            out.append(native_num(h.kind, f, h.prec))
        else:
            f = ev(h.term.real() if h.kind == 'frac' else h.term)
            if h.kind == 'int':
                out.append(str(int(f)))
            elif h.kind == 'fix':
                out.append(str(int(f)).zfill(h.nd))
            else:
                t = ''
                while f and len(t) < 30:
                    f *= 10
                    d = int(f)
                    t += str(d)
                    f -= d
                out.append(t or '0')
    return ''.join(out)
