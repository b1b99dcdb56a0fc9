"""
Runs the real source under symbolic execution.

Every module of the packages under test, and every harness, is read from its
file, its syntax tree is rewritten so that calls, comparisons, subscripts, %,
f-strings and iteration go through the functions below, and the result is
compiled and executed by CPython itself.  The rewriting is local and does not
know what the code is: control flow, objects, exceptions, generators,
descriptors and so on are the interpreter's own.
"""
import ast
import copy
import builtins
import importlib.abc
import importlib.util
import math
import operator
import os
import re
import sys
import types

import z3
from symex import core, strings as st, regex
from symex.core import (Ctx, C, STATS, SymBool, SymInt, SymReal, mkbool,
                        mkint, to_real, note_concretised, sym_hash, sym_not)

SYMS = (SymBool, SymInt, SymReal)
KEEP = {'super', 'globals', 'locals', 'vars', 'dir', 'eval', 'exec',
        '__import__', 'breakpoint'}


def is_sym(x):
    return type(x) in SYMS


def holed(x):
    return isinstance(x, str) and st.holed(x)


# ---------------------------------------------------------------------------
# the syntax tree


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.in_raise = 0

    def s(self, name, *args):
        return ast.Call(
            func=ast.Attribute(value=ast.Name('_S_', ast.Load()), attr=name,
                               ctx=ast.Load()),
            args=list(args), keywords=[])

    def visit_FunctionDef(self, node):
        decs = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name)
        node.args = self.visit(node.args)
        body = []
        for x in node.body:
            r = self.visit(x)
            body.extend(r if isinstance(r, list) else [r])
        q = '.'.join(self.stack)
        self.stack.pop()
        doc = (body and isinstance(body[0], ast.Expr) and
               isinstance(body[0].value, ast.Constant) and
               isinstance(body[0].value.value, str))
        enter = ast.Expr(self.s('enter', ast.Constant(f'{self.mod}:{q}')))
        body.insert(1 if doc else 0, enter)
        node.body = body
        node.decorator_list = decs
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Raise(self, node):
        self.in_raise += 1
        self.generic_visit(node)
        self.in_raise -= 1
        return node

    def visit_Assert(self, node):
        node.test = self.visit(node.test)
        if node.msg is not None:
            self.in_raise += 1
            node.msg = self.visit(node.msg)
            self.in_raise -= 1
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in KEEP:
            self.generic_visit(node)
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute) and not (
                f.attr.startswith('__') and not f.attr.endswith('__')):
            v = f.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == 'super':
                self.generic_visit(v)
                new = self.s('call', ast.Attribute(v, f.attr, ast.Load()))
            else:
                new = self.s('callm', self.visit(v), ast.Constant(f.attr))
        else:
            new = self.s('call', self.visit(f))
        new.args.extend(args)
        new.keywords = kws
        return new

    OPS = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le',
           ast.Gt: 'gt', ast.GtE: 'ge', ast.In: 'in_', ast.NotIn: 'notin'}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            n = self.OPS.get(type(node.ops[0]))
            if n is None:
                return node
            return self.s(n, node.left, node.comparators[0])
        # a chain: evaluate operands once, left to right, short-circuiting
        names = ast.Tuple([ast.Constant(self.OPS.get(type(o), 'is_' if
                                        isinstance(o, ast.Is) else 'isnot'))
                           for o in node.ops], ast.Load())
        lams = [ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], vararg=None,
                               kwonlyargs=[], kw_defaults=[], kwarg=None,
                               defaults=[]), body=x)
                for x in node.comparators]
        return self.s('chain', node.left, names, *lams)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.s('mod_raise' if self.in_raise else 'mod',
                          node.left, node.right)
        if isinstance(node.op, ast.Add):
            return self.s('add', node.left, node.right)
        if isinstance(node.op, ast.BitOr):
            return self.s('bor', node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            t = ast.Name(node.target.id, ast.Load())
            return ast.Assign([node.target],
                              self.s('mod', t, self.visit(node.value)))
        if isinstance(node.op, ast.BitOr) and isinstance(node.target, ast.Name):
            t = ast.Name(node.target.id, ast.Load())
            return ast.Assign([node.target],
                              self.s('ibor', t, self.visit(node.value)))
        node.value = self.visit(node.value)
        # the target of an augmented assignment must stay assignable
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
            node.target.slice = self.s('key', node.target.value,
                                       self.visit(node.target.slice)) \
                if isinstance(node.target.value, ast.Name) else \
                self.visit(node.target.slice)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for x in node.values:
            if isinstance(x, ast.Constant):
                parts.append(x)
            else:
                conv = chr(x.conversion) if x.conversion != -1 else ''
                spec = self.visit(x.format_spec) if x.format_spec is not None \
                    else ast.Constant('')
                parts.append(ast.Tuple([self.visit(x.value),
                                        ast.Constant(conv), spec],
                                       ast.Load()))
        return self.s('fstr_raise' if self.in_raise else 'fstr', *parts)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(ast.Name('slice', ast.Load()), [
                    sl.lower or ast.Constant(None),
                    sl.upper or ast.Constant(None),
                    sl.step or ast.Constant(None)], [])
            elif any(isinstance(x, ast.Slice) for x in ast.walk(sl)):
                return node
            return self.s('getitem', node.value, sl)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and \
                isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.Expr(self.s('setitem_v', node.value, t.value, t.slice))
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and \
                    not isinstance(t.slice, ast.Slice):
                out.append(ast.Expr(self.s('delitem', t.value, t.slice)))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.s('it', node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.s('it', node.iter)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            return node
        return self.s('mkdict', *[ast.Tuple([k, v], ast.Load())
                                  for k, v in zip(node.keys, node.values)])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return self.s('mkdict_from', ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self.s('mkset', ast.List(node.elts, ast.Load()))

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.s('mkset', ast.ListComp(node.elt, node.generators))

    def visit_Match(self, node):
        try:
            out = desugar_match(node)
        except NotImplementedError:
            self.generic_visit(node)
            node.subject = self.s('subject', node.subject)
            return node
        return [self.visit(x) for x in out]

    def visit_MatchValue(self, node):
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node


def compile_source(src, filename, modname):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    # __s must be there before anything runs, but after __future__ imports
    i = 0
    if tree.body and isinstance(tree.body[0], ast.Expr) and \
            isinstance(tree.body[0].value, ast.Constant):
        i = 1
    while i < len(tree.body) and isinstance(tree.body[i], ast.ImportFrom) and \
            tree.body[i].module == '__future__':
        i += 1
    tree.body.insert(i, ast.parse('import symex.lift as _S_').body[0])
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        exec(compile_source(src, self.path, self.name), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots              # top package name -> directory

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=Loader(name, base + '.py'))
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
    patch_bs4()


# ---------------------------------------------------------------------------
# runtime


def enter(q):
    STATS.functions.add(q)


def active():
    return Ctx.cur is not None


def deep_sym(x, depth=3):
    """Whether a value contains anything symbolic (containers searched)."""
    t = type(x)
    if t in SYMS:
        return True
    if t is str:
        return st.holed(x)
    if isinstance(x, str):
        return st.holed(x)
    if depth and t in (list, tuple, set, frozenset, OSet):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(deep_sym(y, depth - 1) or deep_sym(z, depth - 1)
                   for y, z in x.items())
    return False


def eq(a, b):
    if not active():
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        if st.holed(a) or st.holed(b):
            return st.str_eq(a, b)
        return a == b
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb is ta:
        if len(a) != len(b):
            return False
        if not (deep_sym(a) or deep_sym(b)):
            if all(type(x) in PLAIN for x in a):
                return a == b
        acc = True
        for x, y in zip(a, b):
            if x is y:
                continue
            r = eq(x, y)
            if type(r) is SymBool:
                acc = core.sym_and(acc, r)
            elif not r:
                return False
        return acc
    if ta is dict and tb is dict:
        if len(a) != len(b):
            return False
        acc = True
        for k, v in a.items():
            k2 = find_key(b, k)
            if k2 is MISSING:
                return False
            r = eq(v, b[k2])
            if type(r) is SymBool:
                acc = core.sym_and(acc, r)
            elif not r:
                return False
        return acc
    return a == b


PLAIN = (int, float, str, bool, type(None), bytes)


def ne(a, b):
    if not active():
        return a != b
    if isinstance(a, str) and isinstance(b, str) or \
            type(a) in (list, tuple, dict):
        return sym_not(eq(a, b))
    return a != b


def _cmp(op, a, b):
    if active() and isinstance(a, str) and isinstance(b, str) and \
            (st.holed(a) or st.holed(b)):
        if op is operator.lt:
            return st.str_lt(a, b)
        if op is operator.gt:
            return st.str_lt(b, a)
        if op is operator.le:
            return not st.str_lt(b, a)
        return not st.str_lt(a, b)
    return op(a, b)


def lt(a, b): return _cmp(operator.lt, a, b)
def le(a, b): return _cmp(operator.le, a, b)
def gt(a, b): return _cmp(operator.gt, a, b)
def ge(a, b): return _cmp(operator.ge, a, b)
def is_(a, b): return a is b
def isnot(a, b): return a is not b


def chain(left, names, *lams):
    g = globals()
    r = True
    for n, l in zip(names, lams):
        right = l()
        r = g[n](left, right)
        if not r:
            return r
        left = right
    return r


DICT_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))


def in_(a, b):
    if not active():
        return a in b
    if isinstance(b, str):
        if isinstance(a, str) and (st.holed(a) or st.holed(b)):
            return st.contains(b if type(b) is str else str(b),
                               a if type(a) is str else str(a))
        return a in b
    tb = type(b)
    if tb in (list, tuple) or tb in DICT_VIEWS[1:]:
        acc = False
        for x in b:
            if x is a:
                return True
            r = eq(x, a)
            if type(r) is SymBool:
                acc = core.sym_or(acc, r)
            elif r:
                return True
        return acc
    if isinstance(b, (dict, set, frozenset)) or tb is DICT_VIEWS[0] or \
            isinstance(b, types.MappingProxyType):
        if isinstance(b, dict) and type(b).__contains__ is not \
                dict.__contains__:
            return a in b
        if tb is OSet:
            return in_(a, b._all())
        if is_sym(a):
            return in_(a, [x for x in b if is_sym(x) or
                           type(x) in (int, float, bool)])
        if holed(a):
            return in_(a, [x for x in b if isinstance(x, str)])
        return find_key(b, a) is not MISSING
    return a in b


def notin(a, b):
    return sym_not(in_(a, b))


MISSING = object()


def find_key(d, k):
    """The key of d equal to k (forking), or MISSING."""
    if type(k) in PLAIN and not holed(k):
        # a plain key: only symbolic keys of d can differ from native lookup
        if k in d:
            return k
        for x in list(d):
            if is_sym(x) and type(k) in (int, float, bool):
                if bool(x == k):
                    return x
            elif isinstance(k, str) and holed(x):
                if bool(st.str_eq(x, k)):
                    return x
            elif type(x) is tuple:
                continue
        return MISSING
    if is_sym(k):
        for x in list(d):
            if is_sym(x) or type(x) in (int, float, bool):
                if bool(x == k):
                    return x
        return MISSING
    if isinstance(k, str):
        for x in list(d):
            if isinstance(x, str) and bool(eq(x, k)):
                return x
        return MISSING
    if type(k) is tuple and deep_sym(k):
        for x in list(d):
            if type(x) is tuple and bool(eq(x, k)):
                return x
        return MISSING
    if k in d:
        if isinstance(d, dict):
            return k
        return k
    return MISSING


def key(d, k):
    if active() and isinstance(d, dict):
        x = find_key(d, k)
        return k if x is MISSING else x
    return k


def getitem(o, k):
    if not active():
        return o[k]
    if isinstance(o, str):
        if st.holed(o):
            return st.str_getitem(o if type(o) is str else str(o), k)
        return o[k]
    if isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__:
        x = find_key(o, k)
        if x is MISSING:
            return o[k] if not deep_sym(k) else _key_error(o, k)
        return dict.__getitem__(o, x)
    return o[k]


def _key_error(o, k):
    m = getattr(type(o), '__missing__', None)
    if m is not None:
        return m(o, k)
    raise KeyError(k)


def setitem(o, k, v):
    if active() and isinstance(o, dict) and \
            type(o).__setitem__ is dict.__setitem__:
        x = find_key(o, k)
        if x is not MISSING:
            k = x
    o[k] = v


def setitem_v(v, o, k):
    setitem(o, k, v)


def delitem(o, k):
    if active() and isinstance(o, dict):
        x = find_key(o, k)
        if x is MISSING:
            raise KeyError(k)
        k = x
    del o[k]


def mkdict_from(pairs):
    if not active():
        return dict(pairs)
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def mkset(xs):
    return OSet(xs) if active() else set(xs)


SELF_MATCHING = ('bool bytearray bytes dict float frozenset int list set '
                 'str tuple').split()
MATCHES = [0]


def desugar_match(node):
    """A match statement as ifs, so that symbolic subjects stay symbolic."""
    MATCHES[0] += 1
    name = f'_vpmatch{MATCHES[0]}'

    def load(n):
        return ast.Name(n, ast.Load())

    def call(f, *args):
        return ast.Call(load(f), list(args), [])

    def both(*conds):
        conds = [c for c in conds if c is not None]
        if not conds:
            return None
        return conds[0] if len(conds) == 1 else \
            ast.BoolOp(ast.And(), conds)

    def bind(n, subj):
        # a list of one thing is true
        return ast.List([ast.NamedExpr(ast.Name(n, ast.Store()), subj())],
                        ast.Load())

    def cond(pat, subj):
        """None if it always matches; subj() is a new node each time."""
        if isinstance(pat, ast.MatchValue):
            return ast.Compare(subj(), [ast.Eq()], [pat.value])
        if isinstance(pat, ast.MatchSingleton):
            return ast.Compare(subj(), [ast.Is()], [ast.Constant(pat.value)])
        if isinstance(pat, ast.MatchAs):
            inner = None if pat.pattern is None else cond(pat.pattern, subj)
            return both(inner, None if pat.name is None
                        else bind(pat.name, subj))
        if isinstance(pat, ast.MatchOr):
            conds = [cond(q, subj) for q in pat.patterns]
            if any(c is None for c in conds):
                return None
            return ast.BoolOp(ast.Or(), conds)
        if isinstance(pat, ast.MatchClass):
            conds = [call('isinstance', subj(), pat.cls)]
            if pat.patterns:
                if not (isinstance(pat.cls, ast.Name) and
                        pat.cls.id in SELF_MATCHING and
                        len(pat.patterns) == 1):
                    raise NotImplementedError
                conds.append(cond(pat.patterns[0], subj))
            for attr, q in zip(pat.kwd_attrs, pat.kwd_patterns):
                conds.append(call('hasattr', subj(), ast.Constant(attr)))
                conds.append(cond(q, lambda a=attr: ast.Attribute(
                    subj(), a, ast.Load())))
            return both(*conds)
        if isinstance(pat, ast.MatchSequence):
            conds = [call('isinstance', subj(), ast.Tuple(
                [load('list'), load('tuple')], ast.Load()))]
            stars = [i for i, q in enumerate(pat.patterns)
                     if isinstance(q, ast.MatchStar)]
            n = len(pat.patterns)
            conds.append(ast.Compare(
                call('len', subj()), [ast.GtE() if stars else ast.Eq()],
                [ast.Constant(n - len(stars))]))
            for i, q in enumerate(pat.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name is None:
                        continue
                    end = i - n + 1
                    conds.append(bind(q.name, lambda i=i, end=end: call(
                        'list', ast.Subscript(subj(), ast.Slice(
                            ast.Constant(i),
                            ast.Constant(end) if end else None),
                            ast.Load()))))
                    continue
                at = i - n if stars and i > stars[0] else i
                conds.append(cond(q, lambda at=at: ast.Subscript(
                    subj(), ast.Constant(at), ast.Load())))
            return both(*conds)
        if isinstance(pat, ast.MatchMapping) and pat.rest is None:
            conds = [call('isinstance', subj(), load('dict'))]
            for k, q in zip(pat.keys, pat.patterns):
                conds.append(ast.Compare(k, [ast.In()], [subj()]))
                conds.append(cond(q, lambda k=k: ast.Subscript(
                    subj(), k, ast.Load())))
            return both(*conds)
        raise NotImplementedError

    first = ast.Assign([ast.Name(name, ast.Store())], node.subject)
    rest = []
    for case in reversed(node.cases):
        test = both(cond(case.pattern, lambda: load(name)), case.guard)
        if test is None:
            test = ast.Constant(True)
        rest = [ast.If(test, case.body, rest)]
    out = [first] + rest
    for x in out:
        ast.copy_location(x, node)
        ast.fix_missing_locations(x)
    # (no node may be visited twice)
    return [copy.deepcopy(x) for x in out]


def subject(x):
    """The subject of a match statement: its patterns compare natively."""
    return conc(x) if active() else x


def conc(x, depth=3):
    """Everything symbolic made concrete (forking; recorded)."""
    t = type(x)
    if t is SymBool:
        return bool(x)
    if t is SymInt:
        return x.__index__()
    if t is SymReal:
        return float(x)
    if isinstance(x, str):
        return st.concrete(str(x)) if st.holed(x) else x
    if depth and t in (list, tuple):
        return t([conc(y, depth - 1) for y in x])
    if depth and t is dict:
        return {conc(k, depth - 1): conc(v, depth - 1) for k, v in x.items()}
    if t is OSet:
        return {conc(y, depth - 1) for y in x}
    return x


def mkdict(*pairs):
    return mkdict_from(pairs)


def it(x):
    if active() and isinstance(x, str) and st.holed(x):
        return iter(st.chars_of(str(x)))
    return x


def mod(a, b):
    if active() and isinstance(a, str):
        if st.holed(a) or deep_sym(b) or '%' in a:
            return st.percent(a, b)
    return a % b


def mod_raise(a, b):
    if active() and isinstance(a, str):
        return 'message'
    return a % b


def add(a, b):
    return a + b


def bor(a, b):
    if active() and type(a) is dict and isinstance(b, dict):
        d = dict(a)
        for k, v in b.items():
            setitem(d, k, v)
        return d
    return a | b


def ibor(a, b):
    if active() and type(a) is dict and isinstance(b, (dict, list)):
        for k, v in (b.items() if isinstance(b, dict) else b):
            setitem(a, k, v)
        return a
    return operator.ior(a, b)


def fstr(*parts):
    if not active():
        return ''.join(x if isinstance(x, str) else _plain_fmt(*x)
                       for x in parts)
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        else:
            out.append(st.fmt_any(*x))
    return ''.join(out)


def _plain_fmt(v, conv, spec):
    if conv == 'r':
        v = repr(v)
    elif conv == 's':
        v = str(v)
    elif conv == 'a':
        v = ascii(v)
    return format(v, spec)


def fstr_raise(*parts):
    """
    The text of an error message: its operands are evaluated, but objects
    are not formatted, because every formatting of a symbolic value forks
    and nothing may depend on the wording.
    """
    if not active():
        return fstr(*parts)
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif type(x[0]) in PLAIN:
            out.append(fstr(x))
        else:
            out.append('...')
    return ''.join(out)


# ---------------------------------------------------------------------------
# builtins


class OSet(set):
    """
    A set that iterates in insertion order (deterministic re-execution).
    Symbolic elements are compared with the others only when how many
    different ones there are matters.
    """

    def __init__(self, xs=()):
        set.__init__(self)
        self._o = []
        self._raw = []
        for x in xs:
            self.add(x)

    @property
    def __class__(self):
        return set

    def _norm(self):
        raw, self._raw = self._raw, []
        for x in raw:
            if find_key_set(self, x) is MISSING:
                set.add(self, x)
                self._o.append(x)
        return self._o

    def _all(self):
        """The elements, some perhaps more than once."""
        return self._o + self._raw

    def add(self, x):
        hash(x)
        self._raw.append(x)

    def update(self, *xss):
        for xs in xss:
            for x in it(xs):
                self.add(x)

    def discard(self, x):
        self._norm()
        y = find_key_set(self, x)
        if y is not MISSING:
            set.discard(self, y)
            self._o = [z for z in self._o if z is not y]

    def remove(self, x):
        self._norm()
        y = find_key_set(self, x)
        if y is MISSING:
            raise KeyError(x)
        self.discard(y)

    def pop(self):
        self._norm()
        if not self._o:
            raise KeyError('pop from an empty set')
        x = self._o[0]
        self.discard(x)
        return x

    def clear(self):
        set.clear(self)
        self._o = []
        self._raw = []

    def __iter__(self):
        return iter(list(self._norm()))

    def __len__(self):
        return len(self._norm())

    def __bool__(self):
        return bool(self._o or self._raw)

    def __contains__(self, x):
        return bool(in_(x, self._all()))

    def copy(self):
        return OSet(self._all())

    __copy__ = copy

    # -- comparison

    def issubset(self, o):
        return subset(self._all(), elements(o))

    def issuperset(self, o):
        return subset(elements(o), self._all())

    def isdisjoint(self, o):
        o = elements(o)
        acc = True
        for x in self._all():
            acc = core.sym_and(acc, sym_not(in_(x, o)))
        return acc

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return core.sym_and(self.issubset(o), self.issuperset(o))

    def __ne__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return sym_not(self.__eq__(o))

    def __le__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.issubset(o)

    def __ge__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return self.issuperset(o)

    def __lt__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return core.sym_and(self.issubset(o), sym_not(self.issuperset(o)))

    def __gt__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return core.sym_and(self.issuperset(o), sym_not(self.issubset(o)))

    __hash__ = None

    # -- combination

    def union(self, *os):
        r = OSet(self._all())
        r.update(*os)
        return r

    def intersection(self, *os):
        r = self._all()
        for o in os:
            o = elements(o)
            r = [x for x in r if bool(in_(x, o))]
        return OSet(r)

    def difference(self, *os):
        r = self._all()
        for o in os:
            o = elements(o)
            r = [x for x in r if not bool(in_(x, o))]
        return OSet(r)

    def symmetric_difference(self, o):
        o = OSet(it(o))
        return self.difference(o).union(o.difference(self))

    def difference_update(self, *os):
        r = self.difference(*os)
        self.clear()
        self.update(r._all())

    def intersection_update(self, *os):
        r = self.intersection(*os)
        self.clear()
        self.update(r._all())

    def __or__(self, o):
        return self.union(o) if isinstance(o, (set, frozenset)) or \
            type(o) in DICT_VIEWS else NotImplemented

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (set, frozenset)) or \
            type(o) in DICT_VIEWS else NotImplemented

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (set, frozenset)) or \
            type(o) in DICT_VIEWS else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) \
            if isinstance(o, (set, frozenset)) else NotImplemented

    __ror__ = __or__
    __rand__ = __and__
    __rxor__ = __xor__

    def __rsub__(self, o):
        return OSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self


def elements(o):
    if type(o) is OSet:
        return o._all()
    return list(it(o))


def subset(a, b):
    acc = True
    for x in a:
        acc = core.sym_and(acc, in_(x, b))
        if acc is False:
            return False
    return acc


def find_key_set(s, k):
    if type(k) in PLAIN and not holed(k) or deep_sym(k):
        for x in s._o:
            if type(x) is type(k) or is_sym(x) or is_sym(k):
                if x is k or bool(eq(x, k)):
                    return x
        if type(k) in (int, float, bool) and set.__contains__(s, k):
            return k
        return MISSING
    for x in s._o:
        if x is k:
            return x
    if set.__contains__(s, k):
        return k
    return MISSING


SET_METHODS = ('issubset', 'issuperset', 'isdisjoint', 'union',
               'intersection', 'difference', 'symmetric_difference',
               '__contains__')


def l_float(x=0.0):
    if not active():
        return float(x)
    if type(x) is SymReal:
        return x
    if type(x) in (SymInt, SymBool):
        return st.to_float(x)
    if isinstance(x, str):
        if st.holed(x):
            return st.parse_float(x if type(x) is str else str(x))
        return float(x)
    f = getattr(type(x), '__float__', None)
    if f is not None and type(x) not in PLAIN:
        r = f(x)
        if is_sym(r):
            return r if type(r) is SymReal else _bad_float(r)
        return float(x) if not isinstance(r, float) else r
    if f is None and hasattr(type(x), '__index__'):
        r = x.__index__()
        if is_sym(r):
            return st.to_float(r)
    return float(x)


def _bad_float(r):
    raise TypeError('__float__ returned non-float')


def l_int(x=0, *base, **kw):
    if not active():
        return int(x, *base, **kw)
    b = base[0] if base else kw.get('base')
    if isinstance(x, str) and st.holed(x):
        return st.parse_int(x if type(x) is str else str(x),
                            10 if b is None else b)
    if b is None:
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return x._i()
        if type(x) is SymReal:
            return x.__trunc__()
        for n in ('__int__', '__index__', '__trunc__'):
            f = getattr(type(x), n, None)
            if f is not None and type(x) not in PLAIN:
                r = f(x)
                if is_sym(r):
                    if type(r) is SymReal:
                        raise TypeError('__int__ returned non-int')
                    return r
                break
    return int(x, *base, **kw)


def l_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return mkbool(x.term != 0)
    if type(x) is SymReal:
        return x != 0
    if active() and not isinstance(x, (str, list, tuple, dict)):
        f = getattr(type(x), '__bool__', None)
        if f is not None and isinstance(f, types.FunctionType):
            r = f(x)
            if type(r) is SymBool:
                return r
    return bool(x)


def l_str(*a, **kw):
    return str(*a, **kw)


def l_repr(x):
    if active():
        return st.repr_any(x)
    return repr(x)


def l_len(x):
    if active() and isinstance(x, str) and st.holed(x):
        return st.length(x)
    if active():
        f = getattr(type(x), '__len__', None)
        if isinstance(f, types.FunctionType):
            r = f(x)
            if is_sym(r):
                return r
            return len(x) if not isinstance(r, int) or r < 0 else r
    return len(x)


def l_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymReal:
            return float
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        if t is OSet:
            return set
    return type(*a)


def l_hash(x):
    if not active():
        return hash(x)
    if is_sym(x) or type(x) in (int, float, bool):
        return sym_hash(x)
    if type(x) is tuple:
        return sym_hash(x)
    if isinstance(x, str):
        return sym_hash(StrKey(str(x)))
    if x is None:
        return hash(x)
    return hash(x)


class StrKey:
    """A string as a hash-registry entry."""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        if isinstance(o, StrKey):
            return eq(self.s, o.s)
        return False

    __hash__ = None


def l_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if type(x) is not SymBool else \
            x._i().__round__(n)
    return round(x) if n is None else round(x, n)


def l_dict(*a, **kw):
    if not active():
        return dict(*a, **kw)
    d = {}
    if a:
        src = a[0]
        if isinstance(src, dict) and type(src).keys is dict.keys:
            d.update(src)
        elif hasattr(src, 'keys'):
            for k in src.keys():
                setitem(d, k, src[k])
        else:
            for p in src:
                k, v = p
                setitem(d, k, v)
    d.update(kw)
    return d


def l_set(xs=()):
    if not active():
        return set(xs)
    return OSet(it(xs))


def l_ord(c):
    if active() and isinstance(c, str) and st.holed(c):
        c = st.chars_of(str(c))
        if len(c) == 1:
            h = st.hole(c)
            return mkint(h.term, max(h.dom))
    return ord(c)


def l_chr(i):
    if type(i) is SymInt and active():
        if i.B is not None and i.B <= 0x250:
            return st.char_hole(i.term, range(0, int(i.B) + 1))
    return chr(i)


def l_hex(x):
    if type(x) is SymInt:
        r = st.radix(x, 16, False)
        return '-0x' + r[1:] if r.startswith('-') else '0x' + r
    return hex(x)


def l_format(v, spec=''):
    if active():
        return st.fmt_any(v, '', spec)
    return format(v, spec)


def l_list(*a):
    if a and active() and isinstance(a[0], str):
        return list(it(a[0]))
    return list(*a)


def l_tuple(*a):
    if a and active() and isinstance(a[0], str):
        return tuple(it(a[0]))
    return tuple(*a)


def l_enumerate(x, start=0):
    return enumerate(it(x), start)


def l_zip(*xs, **kw):
    return zip(*[it(x) for x in xs], **kw)


def l_reversed(x):
    if active() and isinstance(x, str) and st.holed(x):
        return reversed(st.chars_of(str(x)))
    return reversed(x)


def wrap_fn(f):
    """A builtin passed as a callback, lifted."""
    if f is None:
        return None
    try:
        if f in TABLE:
            return TABLE[f]
    except TypeError:
        return f
    if isinstance(f, (types.MethodDescriptorType,)) and \
            f.__objclass__ is str:
        return lambda s, *a, **k: callm(s, f.__name__, *a, **k)
    return f


def l_map(f, *xs):
    return map(wrap_fn(f), *[it(x) for x in xs])


def l_filter(f, xs):
    return filter(wrap_fn(f), it(xs))


class _K:
    """Sort key: compares with the lifted <."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __lt__(self, o):
        return bool(lt_any(self.k, o.k))


def lt_any(a, b):
    if type(a) is tuple and type(b) is tuple or \
            type(a) is list and type(b) is list:
        for x, y in zip(a, b):
            if x is y:
                continue
            if not bool(eq(x, y)):
                return lt_any(x, y)
        return len(a) < len(b)
    return lt(a, b)


def l_sorted(xs, *, key=None, reverse=False):
    xs = list(it(xs))
    if not active():
        return sorted(xs, key=key, reverse=reverse)
    kf = wrap_fn(key) or (lambda x: x)
    return sorted(xs, key=lambda x: _K(kf(x)), reverse=reverse)


def _extreme(better):
    def f(*a, key=None, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in kw:
                return kw['default']
            raise ValueError('iterable argument is empty')
        kf = wrap_fn(key) or (lambda x: x)
        best, bk = xs[0], kf(xs[0])
        for x in xs[1:]:
            k = kf(x)
            if bool(better(k, bk)):
                best, bk = x, k
        return best
    return f


l_min = _extreme(lambda a, b: lt_any(a, b))
l_max = _extreme(lambda a, b: lt_any(b, a))


def l_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def l_any(xs):
    acc = False
    for x in xs:
        if type(x) is SymBool:
            acc = core.sym_or(acc, x)
        elif x:
            return True
    return acc


def l_all(xs):
    acc = True
    for x in xs:
        if type(x) is SymBool:
            acc = core.sym_and(acc, x)
        elif not x:
            return False
    return acc


def l_isinstance(x, c):
    return isinstance(x, c)


def l_floor(x):
    return x.__floor__() if is_sym(x) and type(x) is not SymBool \
        else math.floor(x)


def l_ceil(x):
    return x.__ceil__() if is_sym(x) and type(x) is not SymBool \
        else math.ceil(x)


def l_trunc(x):
    return x.__trunc__() if is_sym(x) and type(x) is not SymBool \
        else math.trunc(x)


def l_fmod(x, y):
    if is_sym(x) or is_sym(y):
        a = abs(to_real(x))
        b = abs(to_real(y))
        r = core.r_divmod(a, to_real(b))[1]
        return -r if bool(x < 0) else r
    return math.fmod(x, y)


def l_isnan(x):
    return False if is_sym(x) else math.isnan(x)


def l_isfinite(x):
    return True if is_sym(x) else math.isfinite(x)


def l_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        d = abs(a - b)
        return core.sym_or(d <= abs_tol, d <= rel_tol * abs(a),
                           d <= rel_tol * abs(b))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def l_fabs(x):
    return abs(to_real(x)) if is_sym(x) else math.fabs(x)


def l_copysign(x, y):
    if is_sym(x) or is_sym(y):
        a = abs(l_float(x))
        return -a if bool(l_float(y) < 0) else a
    return math.copysign(x, y)


def l_splitext(p):
    if active() and isinstance(p, str) and st.holed(p):
        return os.path.splitext(st.resolve(p, './'))
    return os.path.splitext(p)


def l_basename(p):
    if active() and isinstance(p, str) and st.holed(p):
        return os.path.basename(st.resolve(p, '/'))
    return os.path.basename(p)


def l_dirname(p):
    if active() and isinstance(p, str) and st.holed(p):
        return os.path.dirname(st.resolve(p, '/'))
    return os.path.dirname(p)


def l_open(file, *a, **kw):
    return open(file, *a, **kw)


def _re_fn(name):
    def f(pattern, *args, **kw):
        flags = kw.pop('flags', 0)
        if not isinstance(pattern, re.Pattern):
            if holed(pattern):
                pattern = st.concrete(pattern)
            pattern = re.compile(pattern, flags)
        return callm(pattern, name, *args, **kw)
    return f


TABLE = {
    float: l_float, int: l_int, bool: l_bool, str: l_str, repr: l_repr,
    len: l_len, type: l_type, hash: l_hash, round: l_round, dict: l_dict,
    set: l_set, frozenset: l_set, ord: l_ord, chr: l_chr, hex: l_hex, format: l_format,
    list: l_list, tuple: l_tuple, enumerate: l_enumerate, zip: l_zip,
    reversed: l_reversed, map: l_map, filter: l_filter, sorted: l_sorted,
    min: l_min, max: l_max, sum: l_sum, any: l_any, all: l_all,
    math.floor: l_floor, math.ceil: l_ceil, math.trunc: l_trunc,
    math.fmod: l_fmod, math.isnan: l_isnan, math.isfinite: l_isfinite,
    math.isinf: l_isnan, math.isclose: l_isclose, math.fabs: l_fabs,
    math.copysign: l_copysign,
    os.path.splitext: l_splitext, os.path.basename: l_basename,
    os.path.dirname: l_dirname,
    re.match: _re_fn('match'), re.search: _re_fn('search'),
    re.fullmatch: _re_fn('fullmatch'), re.split: _re_fn('split'),
    re.sub: _re_fn('sub'), re.subn: _re_fn('subn'),
    re.findall: _re_fn('findall'), re.finditer: _re_fn('finditer'),
    operator.eq: eq, operator.ne: ne, operator.lt: lt, operator.le: le,
    operator.gt: gt, operator.ge: ge, operator.mod: mod,
    operator.getitem: getitem,
}
TYPES = (float, int, bool, str, dict, set, list, tuple)


def call(f, /, *a, **kw):
    if Ctx.cur is None:
        return f(*a, **kw)
    try:
        g = TABLE.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **kw)
    t = type(f)
    if t is types.BuiltinMethodType or t is METHOD_WRAPPER:
        o = getattr(f, '__self__', None)
        if isinstance(o, (str, dict, list, set, frozenset, re.Pattern)) or \
                is_sym(o):
            return callm(o, f.__name__, *a, **kw)
    elif t is types.MethodDescriptorType and a and isinstance(a[0], str):
        return callm(a[0], f.__name__, *a[1:], **kw)
    if opaque(f, t) and (deep_sym(a) or deep_sym(kw)):
        note_concretised(f'call of {getattr(f, "__qualname__", f)}')
        a, kw = conc(a), conc(kw)
    return f(*a, **kw)


OPAQUE_MODULES = {'math', 'cmath', 'binascii', '_struct', 'struct', 'zlib',
                  '_json', 'unicodedata', '_bisect_', 'time', '_datetime',
                  '_codecs', 'html', 'colorsys', 'textwrap', 'shlex',
                  'fractions', 'decimal', '_decimal', 'datetime',
                  'xml.sax.saxutils', 'statistics', 'numbers', 'ast', 'json'}
OPAQUE_TYPES = (bytes, bytearray, complex, memoryview)


def opaque(f, t):
    """Native code with nothing symbolic inside it."""
    if t is types.BuiltinFunctionType:
        o = f.__self__
        if isinstance(o, types.ModuleType):
            return o.__name__ in OPAQUE_MODULES
        return isinstance(o, type) and o not in (dict, object, type)
    if t is types.FunctionType or t is type or \
            isinstance(f, type):
        return f in OPAQUE_TYPES or getattr(f, '__module__', None) in \
            OPAQUE_MODULES
    if t is types.MethodType:
        return getattr(f, '__module__', None) in OPAQUE_MODULES
    return False


METHOD_WRAPPER = type(''.__eq__)


def callm(o, name, /, *a, **kw):
    if Ctx.cur is None:
        return getattr(o, name)(*a, **kw)
    if isinstance(o, str):
        s = o
        if hasattr(str, name) and (st.holed(s) or any(deep_sym(x, 1)
                                                      for x in a) or
                                   name in ('format', 'format_map') and
                                   (deep_sym(a) or deep_sym(kw))):
            if name == 'join':
                return str(o).join(list(a[0])) if a else o.join()
            return st.str_method(o, name, a, kw)
        return getattr(o, name)(*a, **kw)
    t = type(o)
    if isinstance(o, dict) and getattr(t, name, None) is \
            getattr(dict, name, MISSING):
        if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__',
                    '__delitem__') and a:
            k = find_key(o, a[0])
            if k is MISSING:
                if name == 'get':
                    return a[1] if len(a) > 1 else kw.get('default')
                if name == 'pop' and len(a) > 1:
                    return a[1]
                if name == 'setdefault':
                    o[a[0]] = a[1] if len(a) > 1 else None
                    return o[a[0]]
                if name == '__contains__':
                    return False
                if name == 'pop' or name.startswith('__'):
                    raise KeyError(a[0])
            return getattr(o, name)(k, *a[1:], **kw)
        if name == '__setitem__':
            return setitem(o, *a)
        if name == 'update':
            if a:
                src = a[0]
                for k, v in (src.items() if hasattr(src, 'items') else src):
                    setitem(o, k, v)
            for k, v in kw.items():
                setitem(o, k, v)
            return None
        return getattr(o, name)(*a, **kw)
    if t is list:
        if name == 'sort':
            o[:] = l_sorted(list(o), **kw)
            return None
        if name in ('index', 'remove', 'count') and len(a) == 1:
            n = 0
            for i, x in enumerate(o):
                if x is a[0] or bool(eq(x, a[0])):
                    if name == 'index':
                        return i
                    if name == 'remove':
                        del o[i]
                        return None
                    n += 1
            if name == 'count':
                return n
            raise ValueError('not in list')
        return getattr(o, name)(*a, **kw)
    if isinstance(o, (set, frozenset)) and t is not OSet and \
            name in SET_METHODS and (deep_sym(a) or
                                     any(type(x) is OSet for x in a)):
        return getattr(OSet(o), name)(*a, **kw)
    if isinstance(o, re.Pattern) and name in (
            'match', 'search', 'fullmatch', 'split', 'sub', 'subn',
            'findall', 'finditer'):
        if any(holed(x) for x in a) or any(holed(x) for x in kw.values()):
            return regex.run(o, name, a, kw)
        return getattr(o, name)(*a, **kw)
    if BS and isinstance(o, BS.Tag) and name in (
            'find', 'find_all', 'findAll', 'find_parents', 'find_parent',
            'get', 'has_attr', 'get_text', '__getitem__'):
        return bs_call(o, name, a, kw)
    f = getattr(o, name)
    return call(f, *a, **kw)


# ---------------------------------------------------------------------------
# Beautiful Soup

BS = None


def bs_tree_holed(tag):
    for t in tag.descendants:
        if isinstance(t, BS.Tag):
            if st.holed(t.name):
                return True
            for v in t.attrs.values():
                if isinstance(v, str) and st.holed(v):
                    return True
    return False


def bs_call(o, name, a, kw):
    if name in ('find', 'find_all', 'findAll'):
        names = ['name', 'attrs', 'recursive', 'string']
        if name != 'find':
            names.append('limit')
        b = dict(zip(names, a))
        b.update(kw)
        nm = b.pop('name', None)
        attrs = b.pop('attrs', {})
        rec = b.pop('recursive', True)
        string = b.pop('string', None)
        limit = b.pop('limit', None)
        crit_sym = deep_sym(nm) or deep_sym(attrs, 2) or deep_sym(b, 2)
        plain = string is None and (nm is None or isinstance(nm, str)) and \
            isinstance(attrs, dict) and all(isinstance(v, str) for v in
                                            list(attrs.values()) +
                                            list(b.values()))
        if not plain or not (crit_sym or ((attrs or b) and
                                          bs_tree_holed(o))):
            return getattr(o, name)(*a, **kw)
        want = dict(attrs)
        want.update(b)
        out = []
        gen = o.descendants if bool(rec) else o.children
        for t in gen:
            if not isinstance(t, BS.Tag):
                continue
            if nm is not None and not bool(eq(t.name, nm)):
                continue
            ok = True
            for k, v in want.items():
                x = t.attrs.get(k)
                if x is None or not bool(eq(str(x), v)):
                    ok = False
                    break
            if ok:
                if name == 'find':
                    return t
                out.append(t)
                if limit and len(out) >= limit:
                    break
        if name == 'find':
            return None
        return out
    if name in ('get', '__getitem__', 'has_attr') and a and holed(a[0]):
        k = find_key(o.attrs, a[0])
        if name == 'has_attr':
            return k is not MISSING
        if k is MISSING:
            if name == 'get':
                return a[1] if len(a) > 1 else None
            raise KeyError(a[0])
        return o.attrs[k]
    return getattr(o, name)(*a, **kw)


XML_SPECIAL = '&<>"\' \n\t\r'


def patch_bs4():
    """
    Escaping is decided by the characters: fork on those that matter before
    Beautiful Soup's own escaping runs.
    """
    global BS
    import bs4
    import bs4.dammit
    import bs4.formatter
    BS = bs4
    ES = bs4.dammit.EntitySubstitution

    def wrap(f):
        def g(value, *a, **kw):
            if Ctx.cur is not None and isinstance(value, str) and \
                    st.holed(value):
                value = st.resolve(str(value), XML_SPECIAL)
            return f(value, *a, **kw)
        return g
    for reg in (bs4.formatter.XMLFormatter.REGISTRY,
                bs4.formatter.HTMLFormatter.REGISTRY):
        for fm in reg.values():
            if fm.entity_substitution is not None:
                fm.entity_substitution = wrap(fm.entity_substitution)
    orig = ES.quoted_attribute_value

    @classmethod
    def qav(cls, value):
        if Ctx.cur is not None and isinstance(value, str) and st.holed(value):
            value = st.resolve(str(value), '"\'')
        return orig(value)
    ES.quoted_attribute_value = qav
