"""
Path explorer and symbolic scalars.

A *path* is one execution of a harness in which inputs are solver variables.
Every Python truth test on a symbolic condition goes through Ctx.branch(),
which asks the solver which outcomes are feasible; undecided ones are put on
the work list and explored by re-execution.  Everything in this file is about
numbers and control; strings live in strings.py.

Floats are modelled as reals together with IEEE-754 round-to-nearest facts:

  * a value known to be a multiple of 2**-k and bounded so that it fits in
    53 bits is exact, and sums/products that stay so are exact too;
  * any other result r of an exact real result x satisfies
    |r - x| <= 2**-53 |x| and is monotone w.r.t. every double it is compared
    with (x >= d  =>  r >= d), a sound over-approximation of binary64 as
    long as there is no overflow, underflow, infinity or NaN.
"""
import math
import sys
import time
from fractions import Fraction
import z3

U = Fraction(1, 2**53)
LIM = 2**53


class Abort(BaseException):
    """Ends a path; never caught by code under test (not an Exception)."""


class Infeasible(Abort):
    pass


class Truncated(Abort):
    """The path was cut because a bound or a budget was hit."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0
        self.concretised = {}
        self.functions = set()
        self.truncated = 0
        self.checks = 0
        self.check_unsat = 0
        self.native = 0

    def as_dict(self):
        d = dict(self.__dict__)
        d['functions'] = sorted(self.functions)
        return d


STATS = Stats()


class Ctx:
    cur = None

    def __init__(self, prefix=(), timeout_ms=20000):
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.asserted = []
        self.model = None
        self.known = {}
        self.inputs = {}          # name -> (kind, term, extra)
        self.memo = {}
        self.fresh_n = 0
        self.hash_reg = []
        self.had_unknown = False
        self.truncated_notes = []
        # string state (see strings.py)
        self.holes = {}
        self.next_hole = 0
        self.expansions = {}
        self.runsplit = {}

    # -- solver -----------------------------------------------------------

    def _check(self, *extra):
        """sat/unsat/unknown of the path condition plus extra."""
        t0 = time.time()
        STATS.queries += 1
        self.last_model = None
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        if r == z3.sat:
            self.last_model = self.solver.model()
        if extra:
            self.solver.pop()
        if r == z3.unknown:
            for mk in (lambda: z3.Tactic('qfnra-nlsat').solver(),
                       lambda: z3.SimpleSolver()):
                try:
                    s = mk()
                    s.set('timeout', self.timeout_ms)
                    for a in self.asserted:
                        s.add(a)
                    for e in extra:
                        s.add(e)
                    r = s.check()
                    if r == z3.sat:
                        self.last_model = s.model()
                        break
                    if r == z3.unsat:
                        break
                except z3.Z3Exception:
                    r = z3.unknown
        STATS.solver_s += time.time() - t0
        if r == z3.sat:
            STATS.sat += 1
        elif r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.unknown += 1
            self.had_unknown = True
        return r

    def _eval(self, cond):
        if self.model is None:
            return None
        v = self.model.eval(cond, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last_model
            elif r == z3.unsat:
                raise Infeasible()
        return self.model

    def add(self, cond):
        self.asserted.append(cond)
        self.solver.add(cond)

    def fact(self, cond):
        """Assert something that is true of the modelled semantics."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        k = cond.get_id()
        if k in self.known and self.known[k][1] is True:
            return
        self.known[k] = (cond, True)
        self.add(cond)
        if self.model is not None and self._eval(cond) is not True:
            self.model = None

    def fresh(self, sort, hint='v'):
        self.fresh_n += 1
        n = f'{hint}!{self.fresh_n}'
        return z3.Int(n) if sort == 'int' else z3.Real(n)

    # -- control ----------------------------------------------------------

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k][1]
        neg = z3.simplify(z3.Not(cond))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            self.ensure_model()
            m = self._eval(cond)
            tm = fm = None
            if m is True:
                t_ok, tm = True, self.model
            else:
                r = self._check(cond)
                t_ok, tm = r != z3.unsat, self.last_model
            if m is False:
                f_ok, fm = True, self.model
            else:
                r = self._check(neg)
                f_ok, fm = r != z3.unsat, self.last_model
            if t_ok and f_ok:
                self.pending.append(self.trace + [False])
                d = True
            elif t_ok:
                d = True
            elif f_ok:
                d = False
            else:
                raise Infeasible()
            self.model = tm if d else fm
        STATS.branches += 1
        self.trace.append(d)
        self.pos += 1
        self.add(cond if d else neg)
        self.known[k] = (cond, d)
        self.known[neg.get_id()] = (neg, not d)
        return d

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        self.known[cond.get_id()] = (cond, True)
        if self.model is not None and self._eval(cond) is not True:
            self.model = None
        if self.pos >= len(self.prefix):
            self.ensure_model()

    def pick_int(self, term, limit=None, why='index'):
        """
        A concrete value of term, forking over every feasible value.
        With a limit, values beyond it are cut, and recorded.
        """
        n = 0
        while True:
            t = z3.simplify(term)
            if z3.is_int_value(t):
                return t.as_long()
            if self.pos < len(self.prefix):
                # replaying: the candidate is recomputed from the known order
                v = self._replay_candidate(term, n)
            else:
                self.ensure_model()
                if self.model is None:
                    raise Truncated('unknown while concretising')
                v = self.model.eval(term, model_completion=True).as_long()
            if self.branch_cand(term == v, v):
                return v
            n += 1
            if limit is not None and n >= limit:
                note_concretised(why, cut=True)
                raise Truncated('concretisation limit')

    # Candidate values must be the same when a path is re-executed, so they
    # travel with the decision prefix: a decision is True/False, or a tuple
    # (taken, value) for a candidate.
    def _replay_candidate(self, term, n):
        d = self.prefix[self.pos]
        if not isinstance(d, tuple):
            raise RuntimeError('non-deterministic replay')
        return d[1]

    def branch_cand(self, cond, v):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        neg = z3.simplify(z3.Not(cond))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos][0]
        else:
            tm = self.model       # v came from the model: True is feasible
            r = self._check(neg)
            if r != z3.unsat:
                self.pending.append(self.trace + [(False, v)])
            d = True
            self.model = tm
        STATS.branches += 1
        self.trace.append((d, v))
        self.pos += 1
        self.add(cond if d else neg)
        self.known[cond.get_id()] = (cond, d)
        self.known[neg.get_id()] = (neg, not d)
        if not d:
            self.model = None
        return d

    def pick_real(self, term, limit=6, why='float'):
        """Concretise a real (under-approximation, recorded)."""
        note_concretised(why)
        n = 0
        while True:
            t = z3.simplify(term)
            if z3.is_rational_value(t):
                return Fraction(t.numerator_as_long(), t.denominator_as_long())
            if self.pos < len(self.prefix):
                v = Fraction(self.prefix[self.pos][1])
            else:
                self.ensure_model()
                if self.model is None:
                    raise Truncated('unknown while concretising')
                v = model_fraction(self.model, term)
            if self.branch_cand(term == rv(v), str(v)):
                return v
            n += 1
            if n >= limit:
                note_concretised(why, cut=True)
                raise Truncated('concretisation limit')


def note_concretised(why, cut=False):
    key = why + (' (cut)' if cut else '')
    STATS.concretised[key] = STATS.concretised.get(key, 0) + 1


def C():
    c = Ctx.cur
    if c is None:
        raise RuntimeError('no symbolic path is active')
    return c


def model_fraction(model, term):
    v = model.eval(term, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def value_under(x, ev):
    """Exact value of a symbolic number under ev(term) -> Fraction."""
    if type(x) is SymReal and x.N is not None:
        f = Fraction(ev(x.N)) / x.D
        return f if x.err == 0 else Fraction(f.numerator / f.denominator)
    return ev(x.term)


def rv(x):
    """A z3 Real constant of an exact number."""
    f = Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def iv(x):
    return z3.IntVal(int(x))


def as_bool_term(x):
    if isinstance(x, SymBool):
        return x.term
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------------------


class Sym:
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SymBool(Sym):
    __slots__ = ('term',)

    def __init__(self, term):
        object.__setattr__(self, 'term', term)

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return C().branch(self.term)

    def _i(self):
        return SymInt(z3.If(self.term, iv(1), iv(0)), 1)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.term == as_bool_term(o))
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return mkbool(z3.Not(as_bool_term(r)))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.term, as_bool_term(o)))
        return bool(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.term, as_bool_term(o)))
        return bool(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Xor(self.term, as_bool_term(o)))
        return bool(self) ^ o
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o


def mkbool(term):
    t = z3.simplify(term)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def sym_not(x):
    if isinstance(x, SymBool) or type(x) is SymBool:
        return mkbool(z3.Not(x.term))
    return not x


def sym_and(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.term)
        elif not x:
            return False
    if not ts:
        return True
    return mkbool(z3.And(*ts))


def sym_or(*xs):
    ts = []
    for x in xs:
        if type(x) is SymBool:
            ts.append(x.term)
        elif x:
            return True
    if not ts:
        return False
    return mkbool(z3.Or(*ts))


# ---------------------------------------------------------------------------


def is_num(x):
    return type(x) in (SymInt, SymReal, SymBool, int, float, bool)


def to_int(x):
    """SymInt view of an int-like, or None."""
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._i()
    if t in (int, bool):
        return SymInt(iv(x), abs(int(x)))
    if isinstance(x, int):
        return SymInt(iv(int(x)), abs(int(x)))
    return None


def to_real(x):
    """SymReal view of a number, or None (also None for inf and nan)."""
    t = type(x)
    if t is SymReal:
        return x
    if t in (SymInt, SymBool, int, bool):
        i = to_int(x)
        return SymReal(None, 0, i.B, N=i.term, D=1)
    if t is float or (isinstance(x, float) and t is not SymReal):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return None
        f = Fraction(x)
        return SymReal(None, grid_of(f), abs(f), N=iv(f.numerator),
                       D=f.denominator)
    return None


def grid_of(f):
    d = f.denominator
    return d.bit_length() - 1


def special(x):
    return isinstance(x, float) and type(x) is not SymReal and (
        x != x or x in (float('inf'), float('-inf')))


class SymInt(Sym):
    """An unbounded Python int; B, if known, bounds its magnitude."""
    __slots__ = ('term', 'B')

    def __init__(self, term, B=None):
        object.__setattr__(self, 'term', term)
        object.__setattr__(self, 'B', B)

    @property
    def __class__(self):
        return int

    def _bin(self, o, f, b):
        if type(o) is SymReal or (isinstance(o, float) and
                                  type(o) is not SymInt):
            return None
        o = to_int(o)
        if o is None:
            return NotImplemented
        B = None
        if self.B is not None and o.B is not None and b is not None:
            B = b(self.B, o.B)
        return mkint(f(self.term, o.term), B)

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b, lambda a, b: a + b)
        return to_real(self) + o if r is None else r

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b, lambda a, b: a + b)
        return to_real(self) - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: b - a, lambda a, b: a + b)
        return o - to_real(self) if r is None else r

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        r = self._bin(o, lambda a, b: a * b, lambda a, b: a * b)
        return to_real(self) * o if r is None else r

    def __rmul__(self, o):
        return self.__mul__(o)

    def _divmod(self, a, b):
        if C().branch(b.term == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        bt = b.term
        if z3.is_int_value(z3.simplify(bt)):
            pos = z3.simplify(bt).as_long() > 0
        else:
            pos = C().branch(bt > 0)
        q = a.term / bt if pos else (-a.term) / (-bt)
        m = a.term - bt * q
        qB = None if a.B is None else a.B + 1
        mB = b.B
        return mkint(q, qB), mkint(m, mB)

    def __floordiv__(self, o):
        if isinstance(o, float) and type(o) is not SymInt:
            return to_real(self) // o
        o = to_int(o)
        return NotImplemented if o is None else self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if isinstance(o, float):
            return to_real(o) // self
        o = to_int(o)
        return NotImplemented if o is None else self._divmod(o, self)[0]

    def __mod__(self, o):
        if isinstance(o, float) and type(o) is not SymInt:
            return to_real(self) % o
        o = to_int(o)
        return NotImplemented if o is None else self._divmod(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            from symex import strings
            return strings.percent(o, self)
        if isinstance(o, float):
            return to_real(o) % self
        o = to_int(o)
        return NotImplemented if o is None else self._divmod(o, self)[1]

    def __divmod__(self, o):
        if isinstance(o, float) and type(o) is not SymInt:
            return divmod(to_real(self), o)
        o = to_int(o)
        return NotImplemented if o is None else self._divmod(self, o)

    def __rdivmod__(self, o):
        o2 = to_int(o)
        if o2 is None:
            return NotImplemented
        return self._divmod(o2, self)

    def __truediv__(self, o):
        r = to_real(o)
        if r is None:
            return float(self) / o if special(o) else NotImplemented
        return to_real(self) / r

    def __rtruediv__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented
        return r / to_real(self)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 4 and mod is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o, mod) if mod else self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return mkint(-self.term, self.B)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.term >= 0, self.term, -self.term), self.B)

    def __round__(self, n=None):
        if n is None or (type(n) is int and n >= 0):
            return self
        return round(self.__index__(), n)

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self

    def _concrete(self):
        return self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o): return self.__index__() | o
    __ror__ = __or__
    def __xor__(self, o): return self.__index__() ^ o
    __rxor__ = __xor__
    def __invert__(self): return -self - 1

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return self * (1 << o)
        return self.__index__() << o

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return self // (1 << o)
        return self.__index__() >> o

    def __rlshift__(self, o): return o << self.__index__()
    def __rrshift__(self, o): return o >> self.__index__()

    def _cmp(self, o, f):
        if isinstance(o, float) and type(o) is not SymInt:
            r = to_real(o)
            if r is None:
                import operator
                return f(0.0, o) if o == o else f(0, float('nan'))
            return cmp_real(to_real(self), r, f)
        o = to_int(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.term, o.term))

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return C().branch(self.term != 0)

    def __index__(self):
        lim = None if (self.B is not None and self.B <= 4096) else 8
        if lim is not None:
            note_concretised('int used where a machine integer is needed')
        return C().pick_int(self.term, lim, 'int')

    __int__ = __index__

    def __float__(self):
        note_concretised('native float() of int')
        return float(self.__index__())

    def __hash__(self):
        return sym_hash(self)

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def __str__(self):
        from symex import strings
        return strings.num_hole('d', self)
    __repr__ = __str__

    def __format__(self, spec):
        from symex import strings
        return strings.fmt_value(self, spec)


def mkint(term, B=None):
    t = z3.simplify(term)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t, B)


# ---------------------------------------------------------------------------


def has_grid(x):
    return x.N is not None


def kmax(B):
    """Largest k such that multiples of 2**-k up to B are doubles."""
    if B is None:
        return -1
    if B == 0:
        return 1000
    k = 53
    while k >= 0 and B * 2**k > LIM:
        k -= 1
    return k


def single(x):
    """Whether x is the nearest double to its ideal."""
    if x.N is None:
        return False
    if x.err == 0:
        return True
    k = x.key
    while k is not None and k[0] == 'neg':
        k = k[1]
    return k is not None and k[0] == 'tight'


def cmp_real(a, b, f):
    if a.N is not None and b.N is not None:
        L = math.lcm(a.D, b.D)
        E = a.err + b.err
        ok = False
        if E == 0:
            ok = True
        elif a.key is not None and a.key == b.key:
            ok = True
        elif E * L < 1:
            # distinct ideals keep their order; equal ones are equal doubles
            if b.err == 0 and a.K is not None and b.k is not None:
                ok = b.k <= a.K
            elif a.err == 0 and b.K is not None and a.k is not None:
                ok = a.k <= b.K
            if not ok and single(a) and single(b):
                # both the nearest doubles to their ideals
                ok = True
        if ok:
            return mkbool(f(a.N * (L // a.D), b.N * (L // b.D)))
    c = C() if Ctx.cur is not None else None
    at, bt = a.term, b.term
    if c is not None:
        for x, y in ((a, bt), (b, at)):
            e = x.exact
            xt = x.term
            if e is not None:
                c.fact(z3.Implies(e >= y, xt >= y))
                c.fact(z3.Implies(e <= y, xt <= y))
    return mkbool(f(at, bt))


class SymReal(Sym):
    """
    A Python float.

    k: known to be a multiple of 2**-k; B: magnitude bound.

    N, D: its ideal value is the integer term N divided by the integer D,
    from which it differs by at most err (0: it is the ideal value).  K: if
    the ideal value is a multiple of 2**-j for some j <= K, then there is no
    difference.  This decides comparisons, floors and remainders without
    mentioning rounding; where it cannot, term is a solver variable with
    rounding facts, made when first needed.

    exact: the exact real term that this is the rounding of, if it is one.
    """
    __slots__ = ('_term', 'k', 'B', '_exact', 'N', 'D', 'err', 'K', 'key',
                 'lazy')

    def __init__(self, term, k=None, B=None, exact=None, N=None, D=None,
                 err=0, K=None, key=None, lazy=None):
        o = object.__setattr__
        o(self, '_term', term)
        o(self, 'k', k)
        o(self, 'B', B)
        o(self, '_exact', exact)
        o(self, 'N', N)
        o(self, 'D', D)
        o(self, 'err', err)
        o(self, 'K', K)
        if key is None and err == 0 and N is not None:
            N = z3.simplify(N)
            o(self, 'N', N)
            key = ('x', N.get_id(), D)
        o(self, 'key', key)
        o(self, 'lazy', lazy)

    @property
    def __class__(self):
        return float

    @property
    def term(self):
        if self._term is None:
            o = object.__setattr__
            if self.err == 0:
                t = z3.ToReal(self.N)
                if self.D != 1:
                    t = t / rv(self.D)
                o(self, '_term', z3.simplify(t))
            else:
                t, e = self.lazy()
                o(self, '_term', t)
                o(self, '_exact', e)
        return self._term

    @property
    def exact(self):
        if self._term is None and self.err != 0:
            self.term
        return self._exact

    def _ideal_ok(self, k):
        """Whether the ideal decides how this lies to multiples of 2**-k."""
        if self.N is None:
            return False
        if self.err == 0:
            return True
        return self.K is not None and k <= self.K and \
            self.err * math.lcm(self.D, 2**k) < 1

    def _is_neg(self):
        """z3 condition of being negative."""
        return as_bool_term(self < 0)

    # -- arithmetic -------------------------------------------------------

    def _other(self, o):
        return to_real(o)

    def __add__(self, o):
        r = to_real(o)
        if r is None:
            return o + 0.0 if special(o) else NotImplemented
        return r_add(self, r, 1)

    def __radd__(self, o):
        r = to_real(o)
        if r is None:
            return o + 0.0 if special(o) else NotImplemented
        return r_add(r, self, 1)

    def __sub__(self, o):
        r = to_real(o)
        if r is None:
            return 0.0 - o if special(o) else NotImplemented
        return r_add(self, r, -1)

    def __rsub__(self, o):
        r = to_real(o)
        if r is None:
            return o - 0.0 if special(o) else NotImplemented
        return r_add(r, self, -1)

    def __mul__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented if not special(o) else self._conc() * o
        return r_mul(self, r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented if not special(o) else self._conc() / o
        return r_div(self, r)

    def __rtruediv__(self, o):
        r = to_real(o)
        if r is None:
            return NotImplemented if not special(o) else o / self._conc()
        return r_div(r, self)

    def __mod__(self, o):
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(self, r)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            from symex import strings
            return strings.percent(o, self)
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(r, self)[1]

    def __floordiv__(self, o):
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(self, r)[0]

    def __rfloordiv__(self, o):
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(r, self)[0]

    def __divmod__(self, o):
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(self, r)

    def __rdivmod__(self, o):
        r = to_real(o)
        return NotImplemented if r is None else r_divmod(r, self)

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 3:
            r = 1.0
            for _ in range(o):
                r = self * r
            return r
        return self._conc() ** o

    def __rpow__(self, o):
        return o ** self._conc()

    def __neg__(self):
        if self.N is not None:
            lz = None
            if self.err != 0:
                def lz(s=self):
                    t = s.term
                    e = s.exact
                    return z3.simplify(-t), None if e is None else -e
            return SymReal(None, self.k, self.B, N=z3.simplify(-self.N),
                           D=self.D, err=self.err, K=self.K,
                           key=None if self.err == 0 else ('neg', self.key),
                           lazy=lz)
        return SymReal(z3.simplify(-self.term), self.k, self.B,
                       None if self.exact is None else -self.exact)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.N is not None:
            lz = None
            if self.err != 0:
                def lz(s=self):
                    t = s.term
                    e = s.exact
                    if e is not None:
                        e = z3.If(e >= 0, e, -e)
                    return z3.simplify(z3.If(t >= 0, t, -t)), e
            N = z3.simplify(z3.If(self.N >= 0, self.N, -self.N))
            return SymReal(None, self.k, self.B, N=N,
                           D=self.D, err=self.err, K=self.K,
                           key=None if self.err == 0 else ('abs', self.key),
                           lazy=lz)
        e = None
        if self.exact is not None:
            e = z3.If(self.exact >= 0, self.exact, -self.exact)
        return SymReal(z3.simplify(z3.If(self.term >= 0, self.term,
                                         -self.term)),
                       self.k, self.B, e)

    def _floor_facts(self):
        if self.exact is not None:
            C().fact(self.term >= z3.ToReal(z3.ToInt(self.exact)))
            C().fact(self.term <= -z3.ToReal(z3.ToInt(-self.exact)))

    def _intB(self):
        if self.B is None:
            return None
        return int(self.B) + 1

    def _floor_term(self):
        if self._ideal_ok(0):
            return self.N / self.D if self.D != 1 else self.N
        self._floor_facts()
        return z3.ToInt(self.term)

    def _ceil_term(self):
        if self._ideal_ok(0):
            return -((-self.N) / self.D) if self.D != 1 else self.N
        self._floor_facts()
        return -z3.ToInt(-self.term)

    def __floor__(self):
        return mkint(self._floor_term(), self._intB())

    def __ceil__(self):
        return mkint(self._ceil_term(), self._intB())

    def __trunc__(self):
        if self.D == 1 and self.err == 0:
            return mkint(self.N, self._intB())
        neg = self._is_neg()
        return mkint(z3.If(neg, self._ceil_term(), self._floor_term()),
                     self._intB())

    def __round__(self, n=None):
        if n is None:
            return mkint(rhe(self), self._intB())
        if type(n) is not int:
            n = n.__index__()
        if n < 0:
            return round(self._conc(), n)
        if self.k is not None and self.k <= n:
            return self
        B = None if self.B is None else self.B + 1
        if single(self) and 10**n % self.D == 0:
            return self
        return ratio_rounded(rhe_scaled(self, 10**n), 10**n, B)

    def is_integer(self):
        if self._ideal_ok(0):
            return mkbool(self.N % self.D == 0)
        return mkbool(z3.IsInt(self.term))

    def as_integer_ratio(self):
        return self._conc().as_integer_ratio()

    def hex(self):
        return self._conc().hex()

    def conjugate(self):
        return self

    @property
    def real(self): return self
    @property
    def imag(self): return 0.0

    # -- comparison -------------------------------------------------------

    def _cmp(self, o, f):
        r = to_real(o)
        if r is None:
            if special(o):
                return f(0.0, o)
            return NotImplemented
        return cmp_real(self, r, f)

    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        if self._ideal_ok(0):
            return C().branch(self.N != 0)
        return C().branch(self.term != 0)

    def _conc(self):
        f = C().pick_real(self.term)
        return f.numerator / f.denominator

    def __float__(self):
        return self._conc()

    def __int__(self):
        return int(self._conc())

    def __hash__(self):
        return sym_hash(self)

    def __str__(self):
        from symex import strings
        return strings.num_hole('r', self)
    __repr__ = __str__

    def __format__(self, spec):
        from symex import strings
        return strings.fmt_value(self, spec)


def const_of(r):
    if r.N is not None:
        if r.err != 0:
            return None
        t = z3.simplify(r.N)
        return Fraction(t.as_long(), r.D) if z3.is_int_value(t) else None
    t = z3.simplify(r.term)
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def fits(k, B):
    return k is not None and B is not None and B * 2**k <= LIM


def mkreal(term, k, B, exact=None):
    t = z3.simplify(term)
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return f.numerator / f.denominator
    return SymReal(t, k, B, exact)


def mkgrid(N, k, B):
    """The exact float N / 2**k."""
    N = z3.simplify(N)
    if z3.is_int_value(N):
        f = Fraction(N.as_long(), 2**k)
        return f.numerator / f.denominator
    return SymReal(None, k, B, N=N, D=2**k)


BIG = 2**400


def fl_term(exact):
    """(variable, exact) of the double nearest to an exact real term."""
    exact = z3.simplify(exact)
    c = C()
    mk = ('rnd', exact.get_id())
    if mk in c.memo:
        return c.memo[mk][0], exact
    r = c.fresh('real', 'fl')
    u = rv(U)
    c.fact(z3.If(exact >= 0,
                 z3.And(r <= exact * (1 + u), r >= exact * (1 - u)),
                 z3.And(r >= exact * (1 + u), r <= exact * (1 - u))))
    c.memo[mk] = (r, exact)
    return r, exact


def rounded(exact, key, k, B, keep=None):
    """The double nearest to the exact real term."""
    if fits(k, B):
        return mkreal(exact, k, B)
    exact = z3.simplify(exact)
    if z3.is_rational_value(exact):
        f = Fraction(exact.numerator_as_long(), exact.denominator_as_long())
        return f.numerator / f.denominator
    r, e = fl_term(exact)
    B2 = None if B is None else B * (1 + U)
    return SymReal(r, None, B2, e)


def content(t):
    """An integer which divides an integer term whatever its variables."""
    if z3.is_int_value(t):
        return abs(t.as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_MUL:
        r = 1
        for x in t.children():
            r *= content(x)
        return r
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        r = 0
        for x in t.children():
            r = math.gcd(r, content(x))
            if r == 1:
                break
        return r
    return 1


def divided(t, g):
    """An integer term divided by a divisor of its content."""
    if g == 1:
        return t
    if z3.is_int_value(t):
        return z3.IntVal(t.as_long() // g)
    if t.decl().kind() == z3.Z3_OP_MUL:
        out = []
        for x in t.children():
            h = math.gcd(g, content(x))
            out.append(divided(x, h))
            g //= h
        return z3.Product(*out)
    return t.decl()(*[divided(x, g) for x in t.children()])


def ratio_rounded(N, D, B):
    """The double nearest to N/D, for an integer term N and integer D."""
    N = z3.simplify(N)
    if z3.is_int_value(N):
        return N.as_long() / D
    g = math.gcd(content(N), D)
    if g > 1:
        N = z3.simplify(divided(N, g))
        D //= g
    g = D & -D
    if g == D and fits(D.bit_length() - 1, B):
        return mkgrid(N, D.bit_length() - 1, B)
    if B is None:
        return rounded(z3.ToReal(N) / rv(D), None, None, None)

    def lz():
        return fl_term(z3.ToReal(N) / rv(D))
    return SymReal(None, None, B * (1 + U), N=N, D=D, err=B * U,
                   K=kmax(B), key=('tight', N.get_id(), D, N), lazy=lz)


def combined(N, D, B, a, b, opname, op, K=None, err=None):
    """Result of an operation on floats of which some are inexact."""
    def lz():
        t, e = fl_term(op(a.term, b.term))
        c = C()
        if not big:
            d = t - z3.ToReal(N) / rv(D)
            c.fact(z3.And(d <= rv(err), d >= -rv(err)))
        return t, e
    big = D > BIG or B is None or err is None
    if big:
        t, e = fl_term(op(a.term, b.term))
        return SymReal(t, None, None if B is None else B * (1 + U), e)
    N = z3.simplify(N)
    return SymReal(None, None, B * (1 + U), N=N, D=D, err=err, K=K,
                   key=(opname, a.key, b.key), lazy=lz)


def r_add(a, b, sign):
    ca, cb = const_of(a), const_of(b)
    if cb == 0:
        return a
    if ca == 0:
        return b if sign > 0 else -b
    if sign < 0:
        b = -b
    if a.key is not None and b.key is not None and (
            b.key == ('neg', a.key) or a.key == ('neg', b.key)):
        return 0.0
    k = None if a.k is None or b.k is None else max(a.k, b.k)
    B = None if a.B is None or b.B is None else a.B + b.B
    if a.N is not None and b.N is not None:
        L = math.lcm(a.D, b.D)
        N = z3.simplify(a.N * (L // a.D) + b.N * (L // b.D))
        if z3.is_int_value(N) and a.err == 0 and b.err == 0:
            return N.as_long() / L
        if fits(k, B):
            return mkgrid(N, k, B) if L == 2**k else mkreal(
                z3.ToReal(N) / rv(L), k, B)
        if a.err == 0 and b.err == 0:
            return ratio_rounded(N, L, B)
        K = None
        for x, y in ((a, b), (b, a)):
            if x.K is not None and y.err == 0 and y.k is not None and \
                    B is not None and y.k <= min(x.K, kmax(B)):
                K = min(x.K, kmax(B))
        err = None if B is None else \
            a.err + b.err + (B + a.err + b.err) * U
        return combined(N, L, B, a, b, 'add', lambda x, y: x + y, K, err)
    t = z3.simplify(a.term + b.term)
    if fits(k, B):
        return mkreal(t, k, B)
    return rounded(t, None, k, B)


def pow2(f):
    f = abs(f)
    return f != 0 and (f.numerator & (f.numerator - 1)) == 0 and \
        (f.denominator & (f.denominator - 1)) == 0


def scale(a, c):
    """a times a power of two (perhaps negative)."""
    neg = c < 0
    c = abs(c)
    e = c.denominator.bit_length() - c.numerator.bit_length()
    k = None if a.k is None else max(0, a.k + e)
    B = None if a.B is None else a.B * c
    if a.N is not None:
        N = a.N * c.numerator
        D = a.D * c.denominator
        if a.err == 0:
            if a.k is None:
                r = mkreal(a.term * rv(c), k, B)
            else:
                kk = a.k + e
                N = a.N if kk >= 0 else a.N * 2**(-kk)
                r = mkgrid(N, max(kk, 0), B)
        else:
            def lz():
                t = z3.simplify(a.term * rv(c))
                ex = a.exact
                return t, None if ex is None else z3.simplify(ex * rv(c))
            K = None if a.K is None else a.K + e
            if K is not None and K < 0:
                K = None
            r = SymReal(None, None, B, N=z3.simplify(N), D=D, err=a.err * c,
                        K=K, key=('scale', c, a.key), lazy=lz)
    else:
        r = mkreal(a.term * rv(c), k, B,
                   None if a.exact is None else a.exact * rv(c))
    return -r if neg else r


def r_mul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        if cb == 1:
            return a
        if cb == 0:
            return 0.0
        if pow2(cb):
            return scale(a, cb)
    k = None if a.k is None or b.k is None else a.k + b.k
    B = None if a.B is None or b.B is None else a.B * b.B
    if a.N is not None and b.N is not None:
        N = z3.simplify(a.N * b.N)
        D = a.D * b.D
        if fits(k, B):
            return mkgrid(N, k, B)
        if a.err == 0 and b.err == 0:
            return ratio_rounded(N, D, B)
        err = None
        if B is not None:
            e = a.err * b.B + b.err * a.B + a.err * b.err
            err = e + (B + e) * U
        return combined(N, D, B, a, b, 'mul', lambda x, y: x * y, None, err)
    t = z3.simplify(a.term * b.term)
    if fits(k, B):
        return mkreal(t, k, B)
    return rounded(t, None, k, B)


def r_div(a, b):
    c = C()
    cb = const_of(b)
    if cb is None:
        if c.branch(as_bool_term(b == 0)):
            raise ZeroDivisionError('float division by zero')
    elif cb == 0:
        raise ZeroDivisionError('float division by zero')
    if cb is not None and pow2(cb):
        return scale(a, 1 / cb)
    if a.key is not None and a.key == b.key:
        return 1.0
    if cb is not None and a.N is not None and a.B is not None:
        s = 1 if cb > 0 else -1
        N = z3.simplify(a.N * (s * cb.denominator))
        D = a.D * abs(cb.numerator)
        B = a.B / abs(cb)
        if a.err == 0:
            return ratio_rounded(N, D, B)
        e = a.err / abs(cb)
        return combined(N, D, B, a, b, 'div', lambda x, y: x / y, None,
                        e + (B + e) * U)
    if z3.eq(a.term, b.term):
        return 1.0
    t = z3.simplify(a.term / b.term)
    B = None
    if a.B is not None and cb is not None:
        B = a.B / abs(cb)
    return rounded(t, None, None, B)


def r_divmod(a, b):
    """Python's float // and %: exact quotient, exact fmod."""
    c = C()
    cb = const_of(b)
    if cb is None:
        if c.branch(as_bool_term(b == 0)):
            raise ZeroDivisionError('float modulo by zero')
        neg = c.branch(as_bool_term(b < 0))
    else:
        if cb == 0:
            raise ZeroDivisionError('float modulo by zero')
        neg = cb < 0
    qB = None
    if a.B is not None and cb is not None:
        qB = a.B / abs(cb) + 1
    if cb is not None and not neg and a.B is not None and \
            a._ideal_ok(b.k):
        L = math.lcm(a.D, b.D)
        n = z3.simplify((a.N * (L // a.D)) / (b.N * (L // b.D)))
        m = z3.simplify((a.N * (L // a.D)) % (b.N * (L // b.D)))
        quo = mkgrid(n, 0, qB)
        if a.err == 0:
            k = max(a.k, b.k)
            if L == 2**k and fits(k, b.B):
                return quo, mkgrid(m, k, b.B)
            if c.branch(as_bool_term(a < 0)):
                return quo, ratio_rounded(m, L, b.B)
            return quo, mkreal(z3.ToReal(m) / rv(L), k, b.B)
        nonneg = not c.branch(as_bool_term(a < 0))

        def lz():
            at = a.term
            t = z3.simplify(at - z3.ToReal(n) * b.term)
            C().fact(z3.And(t >= 0, t < b.term))
            if nonneg:
                return t, None
            return fl_term(t)
        err = a.err if nonneg else a.err + b.B * U
        K = a.K if nonneg else min(a.K, kmax(b.B))
        return quo, SymReal(None, None, b.B, N=m, D=L, err=err, K=K,
                            key=('mod', a.key, b.key), lazy=lz)
    if a.exact is not None:
        a._floor_facts()
    ratio = a.term / b.term
    q = z3.ToInt(ratio)
    key = ('divmod', z3.simplify(q).get_id())
    n = q
    if cb is None:
        # keep the nonlinear part small: name the quotient
        if key in c.memo:
            n = c.memo[key][0]
        else:
            n = c.fresh('int', 'q')
            c.memo[key] = (n, q)
            r = a.term - z3.ToReal(n) * b.term
            if neg:
                c.fact(z3.And(r <= 0, r > b.term))
            else:
                c.fact(z3.And(r >= 0, r < b.term))
    m = a.term - z3.ToReal(n) * b.term
    k = None if a.k is None or b.k is None else max(a.k, b.k)
    quo = mkgrid(n, 0, qB)
    # fmod is exact; for operands of opposite sign the divisor is then added,
    # which may round.
    exact_ok = k is not None and b.B is not None and fits(k, b.B)
    if exact_ok:
        return quo, mkreal(m, k, b.B)
    same = c.branch(as_bool_term(a >= 0)) != neg
    if same:
        return quo, mkreal(m, k, b.B)
    return quo, rounded(m, None, k, b.B)


def rhe_div(N, D):
    """Int term nearest to N/D, ties to even."""
    if D == 1:
        return z3.simplify(N)
    n = (2 * N + D) / (2 * D)
    tie = (2 * N + D) % (2 * D) == 0
    if D % 2:
        return z3.simplify(n)
    return z3.simplify(z3.If(z3.And(tie, n % 2 != 0), n - 1, n))


def rhe(x):
    if x._ideal_ok(1):
        return rhe_div(x.N, x.D)
    return rhe_scaled(x, 1)


def rhe_scaled(x, S):
    """Int term nearest to x*S (exactly multiplied), ties to even."""
    if x.N is not None:
        if x.err == 0:
            return rhe_div(x.N * S, x.D)
        g = math.gcd(S, x.D)
        D, F = x.D // g, S // g
        if 2 * D * x.err * S < 1:
            if D == 1:
                return z3.simplify(x.N * F)
            if D % 2:
                return rhe_div(x.N * F, D)
            n = 2 * x.N * F + D
            if not C().branch(n % (2 * D) == 0):
                return z3.simplify(n / (2 * D))
    if S == 1:
        return round_half_even(x.term, x)
    return round_half_even(x.term * rv(S), None)


def round_half_even(term, owner):
    """Int nearest to a real term, ties to even."""
    c = C()
    t = z3.simplify(term)
    key = ('rhe', t.get_id())
    if key in c.memo:
        return c.memo[key][0]
    n = c.fresh('int', 'rnd')
    nr = z3.ToReal(n)
    c.fact(z3.And(nr - t <= rv(Fraction(1, 2)), t - nr <= rv(Fraction(1, 2))))
    c.fact(z3.Implies(z3.Or(nr - t == rv(Fraction(1, 2)),
                            t - nr == rv(Fraction(1, 2))), n % 2 == 0))
    if owner is not None and owner.exact is not None:
        owner._floor_facts()
    c.memo[key] = (n, t)
    return n


# ---------------------------------------------------------------------------
# hashing


def sym_hash(x):
    """
    A concrete hash for a symbolic number or a tuple containing some: equal
    to that of an earlier hashed value exactly if the two are equal (decided
    by forking), so that dictionaries behave as they would for real values.
    """
    c = C()
    for i, y in enumerate(c.hash_reg):
        if same_shape(x, y):
            if bool(deep_eq(x, y)):
                return 7_000_001 + 2 * i
    c.hash_reg.append(x)
    return 7_000_001 + 2 * (len(c.hash_reg) - 1)


def same_shape(x, y):
    if type(x) is tuple or type(y) is tuple:
        return type(x) is tuple and type(y) is tuple and len(x) == len(y)
    return True


def deep_eq(x, y):
    if type(x) is tuple:
        for a, b in zip(x, y):
            if type(a) is tuple or type(b) is tuple:
                if not same_shape(a, b) or not deep_eq(a, b):
                    return False
            elif not bool(a == b):
                return False
        return True
    return x == y


def fork_values(x):
    """For a SymBool/SymInt: a concrete value (forking)."""
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymInt:
        return x.__index__()
    return x
