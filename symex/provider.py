"""
What a harness sees.  The same harness runs in two ways: symbolically, where
the inputs are solver variables and check() is a solver query over all of
them, and natively, where the inputs are the values of a counterexample (or
of a completed path) and the unmodified code is run by the ordinary
interpreter.
"""
import os
import shutil
import tempfile
from fractions import Fraction


class Stop(BaseException):
    """Ends a native run whose assumptions do not hold."""


class Base:
    def __init__(self):
        self._tmp = None
        self.labels = {}

    def tmpdir(self):
        """A scratch directory, removed at the end of the run."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vp-symex-')
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def raises(self, fn, *exc):
        """The exception fn raises if it is one of exc, else None."""
        try:
            fn()
        except exc as e:
            return e
        return None

    def outcome(self, fn):
        """('ok', value) or ('raise', exception)"""
        try:
            return ('ok', fn())
        except Exception as e:
            return ('raise', e)

    def fail(self, label):
        self.check(False, label)

    def close(self, a, b, tol):
        d = a - b
        return (d <= tol) & (-d <= tol)


class Native(Base):
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.failures = []
        self.obs = []
        self.checks = 0

    def _in(self, name):
        # the path ended before this input was made: nothing is known here
        if name not in self.inputs:
            raise Stop()
        return self.inputs[name]

    def real(self, name, lo, hi, k=0):
        f = Fraction(self._in(name))
        if not Fraction(lo) <= f <= Fraction(hi):
            raise Stop()
        return f.numerator / f.denominator

    def int(self, name, lo, hi):
        n = int(self._in(name))
        if not lo <= n <= hi:
            raise Stop()
        return n

    def bool(self, name):
        return bool(int(self._in(name)))

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def char(self, name, domain):
        c = chr(int(self._in(name)))
        if c not in domain:
            raise Stop()
        return c

    def text(self, name, lo, hi, domain):
        n = lo if lo == hi else lo + int(self._in(name + '.len'))
        return ''.join(self.char(f'{name}.{i}', domain) for i in range(n))

    def assume(self, cond):
        if not cond:
            raise Stop()

    def check(self, cond, label):
        self.checks += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            self.failures.append(label)

    def observe(self, name, value):
        self.obs.append((name, plain(value)))


def plain(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return repr(v)
        return ['f', str(Fraction(v))]
    if isinstance(v, int):
        return ['f', str(v)]
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return [[plain(k), plain(x)] for k, x in v.items()]
    return type(v).__name__


class Symbolic(Base):
    symbolic = True

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.obs = []
        self.ces = []              # (label, inputs)
        self.undecided = []
        self.on_query = None
        self.want_ce = None        # callback(label, inputs) -> confirmed?

    # -- inputs -----------------------------------------------------------

    def _declare(self, name, kind, term, extra=None):
        if name in self.ctx.inputs:
            raise RuntimeError(f'input {name} declared twice')
        self.ctx.inputs[name] = (kind, term, extra)

    def real(self, name, lo, hi, k=0):
        import z3
        from symex.core import SymReal
        n = z3.Int('in_' + name)
        lo_, hi_ = Fraction(lo), Fraction(hi)
        c = self.ctx
        c.fact(n >= z3.IntVal(int(lo_ * 2**k)))
        c.fact(n <= z3.IntVal(int(hi_ * 2**k)))
        self._declare(name, 'real', n, k)
        B = max(abs(lo_), abs(hi_))
        if lo_ == hi_:
            return lo_.numerator / lo_.denominator
        return SymReal(None, k, B, N=n, D=2**k)

    def int(self, name, lo, hi):
        import z3
        from symex.core import SymInt
        n = z3.Int('in_' + name)
        self.ctx.fact(n >= lo)
        self.ctx.fact(n <= hi)
        self._declare(name, 'int', n)
        return SymInt(n, max(abs(lo), abs(hi)))

    def bool(self, name):
        import z3
        from symex.core import SymBool
        n = z3.Int('in_' + name)
        self.ctx.fact(n >= 0)
        self.ctx.fact(n <= 1)
        self._declare(name, 'int', n)
        return SymBool(n == 1)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            import z3
            self._declare(name, 'int', z3.IntVal(0))
            return options[0]
        i = self.int(name, 0, len(options) - 1)
        return options[self.ctx.pick_int(i.term)]

    def char(self, name, domain):
        import z3
        from symex import strings as st
        dom = sorted(set(ord(c) for c in domain))
        n = z3.Int('in_' + name)
        # contiguous ranges keep the constraint small
        rs = []
        for d in dom:
            if rs and rs[-1][1] == d - 1:
                rs[-1][1] = d
            else:
                rs.append([d, d])
        self.ctx.fact(z3.Or(*[z3.And(n >= a, n <= b) for a, b in rs]))
        self._declare(name, 'int', n)
        return st.char_hole(n, dom)

    def text(self, name, lo, hi, domain):
        n = lo
        if lo != hi:
            i = self.int(name + '.len', 0, hi - lo)
            n = lo + self.ctx.pick_int(i.term)
        return ''.join(self.char(f'{name}.{i}', domain) for i in range(n))

    def assume(self, cond):
        from symex.core import SymBool, Infeasible
        if type(cond) is SymBool:
            self.ctx.assume(cond.term)
        elif not cond:
            raise Infeasible()

    # -- obligations ------------------------------------------------------

    def model_inputs(self, model):
        from symex.core import model_fraction
        out = {}
        for name, (kind, term, extra) in self.ctx.inputs.items():
            f = model_fraction(model, term)
            if kind == 'real' and extra:
                f = f / 2**extra
            out[name] = str(f)
        return out

    def check(self, cond, label):
        import z3
        from symex.core import SymBool, STATS
        self.labels[label] = self.labels.get(label, 0) + 1
        STATS.checks += 1
        c = self.ctx
        if type(cond) is not SymBool:
            if cond:
                STATS.check_unsat += 1
                return
            neg = z3.BoolVal(True)
            term = None
        else:
            term = cond.term
            neg = z3.simplify(z3.Not(term))
        if c.pos < len(c.prefix):
            # this obligation was decided on the path this one branched from
            STATS.checks -= 1
            if term is None:
                from symex.core import Infeasible
                raise Infeasible()
            c.add(term)
            c.known[term.get_id()] = (term, True)
            if c.model is not None and c._eval(term) is not True:
                c.model = None
            return
        r = c._check(neg)
        if self.on_query is not None:
            self.on_query(c, neg, r)
        if r == z3.unsat:
            STATS.check_unsat += 1
        elif r == z3.sat:
            self.counterexample(label, c.last_model, neg)
        else:
            self.undecided.append(f'{label}: solver answered unknown')
        if term is None:
            from symex.core import Infeasible
            raise Infeasible()
        c.assume(term)

    def counterexample(self, label, model, neg):
        """Confirm on the real code, trying further models if need be."""
        import z3
        c = self.ctx
        blocked = []
        for attempt in range(12):
            inputs = self.model_inputs(model)
            if self.want_ce(label, inputs):
                return
            diff = [t != model.eval(t, model_completion=True)
                    for _, t, _ in c.inputs.values()]
            diff = [d for d in diff if not z3.is_false(z3.simplify(d))]
            if not diff:
                break
            blocked.append(z3.Or(*diff))
            r = c._check(neg, *blocked)
            if r != z3.sat:
                break
            model = c.last_model
        self.undecided.append(
            f'{label}: counterexample does not reproduce: {inputs}')

    def observe(self, name, value):
        self.obs.append((name, value))

    def obs_under(self, model):
        from symex.core import (SymBool, SymInt, SymReal, model_fraction,
                                value_under)
        from symex import strings as st

        def ev(t):
            return model_fraction(model, t)

        def go(v):
            t = type(v)
            if t is SymBool:
                import z3
                return z3.is_true(model.eval(v.term, model_completion=True))
            if t in (SymInt, SymReal):
                return ['f', str(value_under(v, ev))]
            if isinstance(v, str):
                return st.under_model(str(v), ev)
            if isinstance(v, (list, tuple)):
                return [go(x) for x in v]
            if isinstance(v, dict):
                return [[go(k), go(x)] for k, x in v.items()]
            return plain(v)
        return [(n, go(v)) for n, v in self.obs]
