"""Symbolic interpreter for the Python AST of the real functions."""
import ast
import warnings
import builtins
import functools
import inspect
import os
import sys
import types
import uuid
import z3

from .core import *          # noqa
from .core import V, FL
from . import core

REPO = os.environ.get('PYVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_SRC = {}


class Source(object):
    def __init__(self, path):
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(self.text)
        self.funcs = {}
        self.lambdas = {}

        def visit(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef,)):
                    line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                    self.funcs.setdefault((line, ch.name), ch)
                elif isinstance(ch, ast.Lambda):
                    self.lambdas.setdefault(ch.lineno, []).append(ch)
                visit(ch)
        visit(self.tree)


def source(path):
    if path not in _SRC:
        _SRC[path] = Source(path)
    return _SRC[path]


def interpretable(fn):
    f = fn.__code__.co_filename
    return f.startswith(REPO + '/properties/') or f.startswith(VERIF + '/contracts/')


def func_node(fn):
    code = fn.__code__
    src = source(code.co_filename)
    if code.co_name == '<lambda>':
        c = src.lambdas.get(code.co_firstlineno, [])
        if len(c) == 1:
            return c[0]
        pos = [p for p in code.co_positions() if p[2] is not None and p[0] is not None]
        for n in c:
            for p in pos:
                if p[2] is not None and (n.lineno, n.col_offset) <= (p[0], p[2]) and \
                        (p[1], p[3]) <= (n.end_lineno, n.end_col_offset) and p[2] != 0:
                    best = n
                    break
            else:
                continue
            inner = [m for m in c if m is not n and (n.lineno, n.col_offset) < (m.lineno, m.col_offset)
                     and (m.end_lineno, m.end_col_offset) <= (n.end_lineno, n.end_col_offset)]
            if len([a for a in n.args.args]) == code.co_argcount and not inner:
                return best
        raise Unsupported('ambiguous lambda')
    n = src.funcs.get((code.co_firstlineno, code.co_name))
    if n is None:
        raise Unsupported('no source for %s' % code.co_name)
    return n


class CodeV(Opaque):
    def __init__(self, node):
        Opaque.__init__(self, 'code')
        self.node = node


class ScopeInfo(object):
    """Local names of a function body."""

    def __init__(self, node):
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                self.locals.add(x.arg)
            if a.vararg:
                self.locals.add(a.vararg.arg)
            if a.kwarg:
                self.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            self.visit(s)
        self.locals -= self.globals | self.nonlocals

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self.visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    self.locals.add(sub.target.id)
            return
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self.visit(c)


_SCOPES = {}


def scope_of(node):
    k = id(node)
    if k not in _SCOPES:
        _SCOPES[k] = (node, ScopeInfo(node))
    return _SCOPES[k][1]


class Frame(object):
    __slots__ = ('env', 'parent', 'glob', 'info', 'defcls', 'selfname', 'fname')

    def __init__(self, env, parent, glob, info, defcls=None, selfname=None, fname=''):
        self.env, self.parent, self.glob, self.info = env, parent, glob, info
        self.defcls, self.selfname, self.fname = defcls, selfname, fname


SCALARS = (bool, int, float, complex, str, bytes, type(None), type(Ellipsis), type(NotImplemented))
UNDEF = MISSING


def is_native(v):
    return not isinstance(v, Val)


def fl_const(x):
    if x != x:
        return FL.nan
    if x == float('inf'):
        return FL.pinf
    if x == float('-inf'):
        return FL.ninf
    from fractions import Fraction
    f = Fraction(x)
    return FL.fin(z3.Q(f.numerator, f.denominator))


def str_const(s):
    out = []
    for c in s:
        o = ord(c)
        out.append(c if 32 <= o < 127 and c != '\\' else '\\u{%x}' % o)
    return z3.StringVal(''.join(out))


def subst_segs(segs, pairs, eng):
    return tuple(subst_seg(s, pairs, eng) for s in segs)


def subst_seg(s, pairs, eng):
    if isinstance(s, Item):
        return Item(subst(s.v, pairs, eng))
    if isinstance(s, ISeg):
        return ISeg(s.k, z3.substitute(s.n, *pairs),
                    [(z3.substitute(c, *pairs), subst_segs(g, pairs, eng)) for c, g in s.alts])
    if isinstance(s, OSeg):
        return OSeg(z3.substitute(s.oid, *pairs))
    return s


def subst(v, pairs, eng):
    """Substitute terms inside an engine value."""
    if not isinstance(v, Val) or isinstance(v, (Ref, Opaque, UMeth)):
        return v
    if isinstance(v, Sym):
        return Sym(z3.substitute(v.t, *pairs))
    if isinstance(v, SInt):
        return SInt(z3.substitute(v.t, *pairs))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, *pairs))
    if isinstance(v, SStr):
        return SStr(z3.substitute(v.t, *pairs))
    if isinstance(v, SFl):
        return SFl(z3.substitute(v.t, *pairs))
    if isinstance(v, SCx):
        return SCx(z3.substitute(v.re, *pairs), z3.substitute(v.im, *pairs))
    if isinstance(v, Tup):
        return Tup([subst(x, pairs, eng) for x in v.items], v.cls)
    if isinstance(v, SObj):
        return SObj(v.cls, z3.substitute(v.oid, *pairs), v.schema)
    if isinstance(v, BMeth):
        return BMeth(subst(v.func, pairs, eng), subst(v.self, pairs, eng))
    if isinstance(v, NMeth):
        return NMeth(subst(v.self, pairs, eng), v.name)
    if isinstance(v, SegsV):
        return SegsV(subst_segs(v.segs, pairs, eng))
    if isinstance(v, Func):
        return v
    raise Unsupported('substitution in %s' % type(v).__name__)


class Interp(Engine):

    def __init__(self, *a, **k):
        self.models = {}
        self.intr = {}
        self.inline_error = True
        self.where = []
        Engine.__init__(self, *a, **k)

    # ============================================================ conversion
    def lift(self, o):
        """A native Python object as an engine value."""
        if isinstance(o, Val) or isinstance(o, SCALARS):
            return o
        if isinstance(o, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType,
                          property, staticmethod, classmethod, types.MethodDescriptorType,
                          types.WrapperDescriptorType, types.GetSetDescriptorType,
                          types.MemberDescriptorType, functools.partial)):
            return o
        if isinstance(o, types.MethodType):
            return BMeth(o.__func__, self.lift(o.__self__))
        if isinstance(o, tuple):
            return Tup([self.lift(x) for x in o], type(o))
        k = id(o)
        if k in self.lifted:
            return self.lifted[k]
        t = type(o)
        if isinstance(o, (list, dict, set)) or self.liftable(t):
            self.lift_guard(o)
            self.lift_keep.append(o)
            r = self.alloc(None)
            self.lifted[k] = r
            d = {a: self.lift(b) for a, b in getattr(o, '__dict__', {}).items()}
            if isinstance(o, list):
                self.heap[r.id] = SeqCell(t, [Item(self.lift(x)) for x in o], d)
            elif isinstance(o, dict):
                self.heap[r.id] = DictCell(t, None, [W(self.lift(a), self.lift(b)) for a, b in o.items()], d)
            elif isinstance(o, set):
                self.heap[r.id] = SetCell(t, [self.lift(x) for x in sorted(o, key=repr)], d)
            else:
                self.heap[r.id] = InstCell(t, d)
            return r
        return o

    def liftable(self, t):
        m = t.__module__ or ''
        if t.__name__ == 'Sentinel':
            return False
        return m.startswith('properties') or m.startswith('contracts')

    def known_id(self, o):
        k = id(o)
        if k not in self.known:
            self.known[k] = len(self.known) + KNOWN_BASE
            self.known_objs[self.known[k]] = o
        return self.known[k]

    def enc(self, v):
        """Engine value -> V term."""
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, SInt):
            return V.vi(v.t)
        if isinstance(v, SBool):
            return V.vb(v.t)
        if isinstance(v, SStr):
            return V.vs(v.t)
        if isinstance(v, SFl):
            return V.vf(v.t)
        if isinstance(v, SCx):
            return V.vx(v.re, v.im)
        if isinstance(v, Ref):
            return V.vo(z3.IntVal(ALLOC_BASE + v.id))
        if isinstance(v, SObj):
            return V.vo(v.oid)
        if isinstance(v, LastVal):
            return self.enc(self.force(v))
        if isinstance(v, Tup):
            return self.enc_tup(v)
        if isinstance(v, Val):
            raise Unsupported('encoding %s' % type(v).__name__)
        if v is None:
            return V.none
        if isinstance(v, bool):
            return V.vb(z3.BoolVal(v))
        if isinstance(v, int):
            return V.vi(z3.IntVal(v))
        if isinstance(v, float):
            return V.vf(fl_const(v))
        if isinstance(v, complex):
            return V.vx(fl_const(v.real), fl_const(v.imag))
        if isinstance(v, str):
            return V.vs(str_const(v))
        return V.vo(z3.IntVal(self.known_id(v)))

    def enc_tup(self, v):
        ts = [self.enc(x) for x in v.items]
        n = len(ts)
        f = z3.Function('tup%d' % n, *([V] * n + [INT])) if n else None
        o = f(*ts) if n else z3.Const('tup0', INT)
        self.fact(z3.And(o >= 2000000000 + n * 1000000000, o < 3000000000 + n * 1000000000))
        for i, t in enumerate(ts):
            g = z3.Function('tup%d_%d' % (n, i), INT, V)
            self.fact(g(o) == t)
        if v.cls is tuple:
            pass
        return V.vo(o)

    def dec_term(self, t):
        """V term -> engine value (as concrete as syntactically known)."""
        t = z3.simplify(t)
        if z3.is_app(t) and t.sort() == V:
            n = t.decl().name()
            if n == 'none':
                return None
            if n == 'vb':
                return self.bval(t.arg(0))
            if n == 'vi':
                return self.ival(t.arg(0))
            if n == 'vs':
                return self.sval(t.arg(0))
            if n == 'vf':
                return SFl(t.arg(0))
            if n == 'vx':
                return SCx(t.arg(0), t.arg(1))
            if n == 'vo':
                return self.oval(t.arg(0))
        return Sym(t)

    def oval(self, o):
        o = z3.simplify(o)
        if z3.is_int_value(o):
            i = o.as_long()
            if i in self.known_objs:
                return self.known_objs[i]
            if i >= ALLOC_BASE and (i - ALLOC_BASE) in self.heap:
                return Ref(i - ALLOC_BASE)
        if z3.is_app(o) and o.decl().name().startswith('tup') and o.num_args():
            return Tup([self.dec_term(a) for a in o.children()])
        s = self.schema_for(o)
        if s is not None:
            return s
        return SObj(None, o)

    def schema_for(self, o):
        """Objects whose id term is built by a registered constructor function."""
        if z3.is_app(o):
            mk = self.ghost.get(('ctor', o.decl().name()))
            if mk is not None:
                return mk(o)
        return None

    def bval(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def ival(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def sval(self, t):
        t = z3.simplify(t)
        if z3.is_string_value(t):
            s = t.as_string()
            if '\\u' in s:
                import re
                s = re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
            return s
        return SStr(t)

    def narrow(self, v):
        """Case split a Sym on its kind."""
        if isinstance(v, LastVal):
            v = self.force(v)
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if not isinstance(v, Sym):
            return v
        w = self.dec_term(v.t)
        if not isinstance(w, Sym):
            return w
        t = w.t
        if self.branch(V.is_vo(t)):
            return self.oval(V.o(t))
        if self.branch(V.is_vs(t)):
            return self.sval(V.s(t))
        if self.branch(V.is_none(t)):
            return None
        if self.branch(V.is_vi(t)):
            return self.ival(V.i(t))
        if self.branch(V.is_vf(t)):
            return SFl(V.f(t))
        if self.branch(V.is_vb(t)):
            return self.bval(V.b(t))
        self.assume(V.is_vx(t))
        return SCx(V.re(t), V.im(t))

    def force(self, v):
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if not isinstance(v, LastVal):
            return v
        return self.force_last(v)

    # ============================================================ exceptions
    def make_exc(self, cls, *args):
        return self.alloc(InstCell(cls, {'args': Tup(args)}))

    def raise_py(self, cls, *args):
        raise PyExc(self.make_exc(cls, *args))

    def exc_isinstance(self, val, classes):
        return self.truth(self.isinstance_(val, classes))

    def oblige_uncaught(self, x):
        v = x.val
        nm = 'exception'
        if isinstance(v, Ref) and isinstance(self.cell(v), InstCell):
            nm = self.cell(v).cls.__name__
            a = self.cell(v).attrs.get('args')
            self.last_uncaught = (nm, a, list(self.where[-4:]))
        if 'PYVC_DEBUG' in os.environ:
            print('UNCAUGHT', nm, getattr(self, 'last_uncaught', None), self.where[-5:])
        try:
            self.oblige(False, 'no other exception escapes')
        except PathStop:
            pass

    def opaque_exc(self, oid, base=BaseException):
        """A symbolic exception object."""
        e = SObj(None, oid, 'exc')
        self.isinst_fact(e, base)
        return e

    # ============================================================ type tests
    def class_of(self, v):
        v = self.narrow(v)
        if is_native(v):
            return type(v)
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SFl):
            return float
        if isinstance(v, SCx):
            return complex
        if isinstance(v, SStr):
            return str
        if isinstance(v, Tup):
            return v.cls
        if isinstance(v, Ref):
            return self.cell(v).cls
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, Func):
            return types.FunctionType
        if isinstance(v, (BMeth, NMeth)):
            return types.MethodType
        if isinstance(v, (GenV, SegsV)):
            return types.GeneratorType
        if isinstance(v, PropObj):
            return property
        raise Unsupported('class of %s' % type(v).__name__)

    def flatten_classes(self, c):
        c = self.force(c)
        if isinstance(c, Tup):
            out = []
            for x in c.items:
                out += self.flatten_classes(x)
            return out
        if isinstance(c, type):
            return [c]
        if isinstance(c, SObj):
            return [c]
        raise Unsupported('isinstance with %r' % (c,))

    def isinstance_(self, v, classes):
        cs = self.flatten_classes(classes)
        v = self.narrow(v)
        if isinstance(v, SObj) and v.cls is None:
            return self.bval(disj([self.isinst_pred(v.oid, c) for c in cs]))
        k = self.class_of(v)
        res = []
        for c in cs:
            if isinstance(c, SObj):
                res.append(z3.Function('isinst_sym', INT, INT, BOOL)(V.o(self.enc(v)), c.oid))
                continue
            if self.issub(k, c):
                return True
        if res:
            return self.bval(disj(res))
        if isinstance(v, SObj) or isinstance(v, Ref) and isinstance(self.cell(v), InstCell):
            # a class may define __class__ as a property: isinstance consults it too
            d = next((b.__dict__['__class__'] for b in k.__mro__[:-1] if '__class__' in b.__dict__), None)
            if isinstance(d, property):
                k2 = self.narrow(self.call(d.fget, [v], {}))
                if not isinstance(k2, type):
                    raise Unsupported('__class__ of an abstract %s' % k.__name__)
                return any(self.issub(k2, c) for c in cs)
        return False

    def issub(self, k, c):
        try:
            return type.__subclasscheck__(c, k) if type(c) in (type,) else issubclass(k, c)
        except TypeError:
            return issubclass(k, c)

    SCALAR_TYPES = (bool, int, float, complex, str, type(None))

    def isinst_pred(self, oid, c):
        """Predicate `object oid is an instance of class c`, with hierarchy facts."""
        if isinstance(c, SObj):
            return z3.Function('isinst_sym', INT, INT, BOOL)(oid, c.oid)
        if c is object:
            return z3.BoolVal(True)
        if c in self.SCALAR_TYPES:
            return z3.BoolVal(False)
        key = z3.simplify(oid).sexpr()
        f = z3.Function('isinst!' + c.__module__ + '.' + c.__qualname__, INT, BOOL)
        p = f(oid)
        seen = self.isq.setdefault(key, [])
        if c not in [x for x, _ in seen]:
            for d, q in seen:
                if issubclass(c, d):
                    self.fact(z3.Implies(p, q))
                elif issubclass(d, c):
                    self.fact(z3.Implies(q, p))
                elif disjoint_classes(c, d):
                    self.fact(z3.Not(z3.And(p, q)))
            self.isq[key] = seen + [(c, p)]
        return p

    def isinst_fact(self, v, c):
        if isinstance(v, SObj) and v.cls is None:
            self.fact(self.isinst_pred(v.oid, c))

    # ============================================================ truth, equality, identity
    def truth_term(self, v):
        """Truth value as bool or z3 Bool (may branch)."""
        v = self.narrow(v)
        if is_native(v):
            if isinstance(v, SCALARS):
                return bool(v)
            return True if isinstance(v, (type, types.FunctionType)) else bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return self.strlen(v.t) != 0
        if isinstance(v, SFl):
            return z3.Not(v.t == FL.fin(z3.RealVal(0)))
        if isinstance(v, SCx):
            return z3.Not(z3.And(v.re == FL.fin(z3.RealVal(0)), v.im == FL.fin(z3.RealVal(0))))
        if isinstance(v, Tup):
            return len(v.items) > 0
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, InstCell):
                for m in ('__bool__', '__len__'):
                    d = self.class_lookup(c.cls, m)
                    if d is not MISSING:
                        return self.truth_term(self.call(d, [v], {}))
                return True
            if isinstance(c, SeqCell):
                return self.segs_nonempty(c.segs)
            if isinstance(c, DictCell):
                return self.dict_nonempty(v)
            if isinstance(c, SetCell):
                return len(c.items) > 0
        if isinstance(v, SObj):
            if v.cls is not None:
                for m in ('__bool__', '__len__'):
                    d = self.class_lookup(v.cls, m)
                    if isinstance(d, (types.FunctionType, Func)):
                        return self.truth_term(self.call(d, [v], {}))
                    if d is not MISSING:
                        raise Unsupported('truth of an abstract %s' % v.cls.__name__)
                return True
            if v.schema == 'exc':
                return True
            if self.sat(z3.Not(self.isinst_pred(v.oid, BaseException))) == 'unsat':
                return True
            self.taint += ('truth of opaque object',)
            return z3.Function('truth', INT, BOOL)(v.oid)
        return True

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def segs_nonempty(self, segs):
        for s in segs:
            if isinstance(s, Item):
                return True
        for s in segs:
            if isinstance(s, PHSeg):
                raise PoisonRead(s.loc)
            if isinstance(s, OSeg):
                if self.branch(self.oseg_len(s) > 0):
                    return True
                continue
            if all(any(isinstance(x, Item) for x in g) for c, g in s.alts):
                if self.branch(s.n > 0):
                    return True
                continue
            # exists an index whose alternative contributes something?
            b = self.fresh('nonempty', BOOL)
            if self.branch(b):
                w = self.fresh('w', INT)
                self.fact_here(z3.And(w >= 0, w < s.n))
                self.index_term(w)
                cs = []
                for c, g in s.alts:
                    cs.append(z3.And(z3.substitute(c, (s.k, w)),
                                     self.segs_ne_term(subst_segs(g, [(s.k, w)], self))))
                self.assume(disj(cs))
                self.ground_dicts(cs)
                return True
            j = z3.Const(self.uniq('j'), INT)
            cs = []
            for c, g in s.alts:
                cs.append(z3.Implies(z3.substitute(c, (s.k, j)),
                                     z3.Not(self.segs_ne_term(subst_segs(g, [(s.k, j)], self)))))
            self.universal_here([j], z3.Implies(z3.And(j >= 0, j < s.n), conj(cs)))
        return False

    def ground_dicts(self, terms):
        """State the ground facts of the memberships in symbolic dictionaries that the terms speak of."""
        todo, seen = list(terms), set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                name = t.decl().name()
                if name.endswith('.has') and name[:-4] + '.key' in self.symdicts:
                    self.symdicts[name[:-4] + '.key'].has(t.arg(0))
            todo.extend(t.children())

    def segs_ne_term(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Item):
                return z3.BoolVal(True)
            if isinstance(s, OSeg):
                out.append(self.oseg_len(s) > 0)
            elif isinstance(s, ISeg) and all(any(isinstance(x, Item) for x in g) for c, g in s.alts):
                out.append(s.n > 0)
            else:
                raise Unsupported('nested sequence emptiness')
        return disj(out)

    def oseg_len(self, s):
        f = z3.Function('oseglen', INT, INT)
        self.fact(f(s.oid) >= 0)
        return f(s.oid)

    def fact_here(self, f):
        """A fact valid only under the current path condition."""
        self.assume(f)

    def universal_here(self, vars, body):
        self.universal(vars, body)

    # numbers -------------------------------------------------------
    def as_num(self, v):
        """('i', Int) | ('f', FL) | ('x', re, im) | None, for numeric engine values."""
        if isinstance(v, bool):
            return ('i', z3.IntVal(int(v)))
        if isinstance(v, int):
            return ('i', z3.IntVal(v))
        if isinstance(v, float):
            return ('f', fl_const(v))
        if isinstance(v, complex):
            return ('x', fl_const(v.real), fl_const(v.imag))
        if isinstance(v, SInt):
            return ('i', v.t)
        if isinstance(v, SBool):
            return ('i', z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SFl):
            return ('f', v.t)
        if isinstance(v, SCx):
            return ('x', v.re, v.im)
        return None

    def int_to_fl(self, i):
        """Int -> FL (exact; huge ints handled by the caller)."""
        return FL.fin(z3.ToReal(i))

    def num_to_fl(self, n):
        return self.int_to_fl(n[1]) if n[0] == 'i' else n[1]

    def num_eq(self, a, b):
        if a[0] == 'x' or b[0] == 'x':
            ar, ai = (a[1], a[2]) if a[0] == 'x' else (self.num_to_fl(a), FL.fin(z3.RealVal(0)))
            br, bi = (b[1], b[2]) if b[0] == 'x' else (self.num_to_fl(b), FL.fin(z3.RealVal(0)))
            return z3.And(ar == br, ai == bi, ar != FL.nan, ai != FL.nan)
        if a[0] == 'i' and b[0] == 'i':
            return a[1] == b[1]
        x, y = self.num_to_fl(a), self.num_to_fl(b)
        return z3.And(x == y, x != FL.nan)

    def num_lt(self, a, b, le):
        if a[0] == 'i' and b[0] == 'i':
            return a[1] <= b[1] if le else a[1] < b[1]
        x, y = self.num_to_fl(a), self.num_to_fl(b)
        fin = z3.And(FL.is_fin(x), FL.is_fin(y), (FL.r(x) <= FL.r(y)) if le else (FL.r(x) < FL.r(y)))
        cases = [fin,
                 z3.And(x == FL.ninf, FL.is_fin(y)),
                 z3.And(FL.is_fin(x), y == FL.pinf),
                 z3.And(x == FL.ninf, y == FL.pinf)]
        if le:
            cases += [z3.And(x == FL.ninf, y == FL.ninf), z3.And(x == FL.pinf, y == FL.pinf)]
        return z3.Or(*cases)

    def oeq(self, a, b):
        f = z3.Function('oeq', V, V, BOOL)
        self.fact(f(a, b) == f(b, a))
        return z3.Or(a == b, f(a, b))

    def pyeq_term(self, a, b):
        """Python == on V terms, without branching (objects: identity or uninterpreted)."""
        def numof(t):
            fl = z3.If(V.is_vf(t), V.f(t),
                       FL.fin(z3.ToReal(z3.If(V.is_vb(t), z3.If(V.b(t), z3.IntVal(1), z3.IntVal(0)), V.i(t)))))
            return fl
        isnum = lambda t: z3.Or(V.is_vi(t), V.is_vb(t), V.is_vf(t))
        return z3.Or(
            z3.And(V.is_none(a), V.is_none(b)),
            z3.And(V.is_vs(a), V.is_vs(b), V.s(a) == V.s(b)),
            z3.And(isnum(a), isnum(b), numof(a) == numof(b), numof(a) != FL.nan),
            z3.And(V.is_vx(a), a == b, V.re(a) != FL.nan, V.im(a) != FL.nan),
            z3.And(z3.Or(V.is_vo(a), V.is_vo(b)), self.oeq(a, b)))

    def own_eq(self, v):
        """(class, function) if v is an instance of a class with an __eq__ of its own, else None."""
        cls = None
        if isinstance(v, Ref):
            c = self.cell(v)
            cls = c.cls if isinstance(c, InstCell) else None
        elif isinstance(v, SObj):
            cls = v.cls
        if not isinstance(cls, type) or cls is uuid.UUID:
            return None
        d = self.class_lookup(cls, '__eq__')
        return (cls, d) if d is not MISSING and isinstance(d, types.FunctionType) else None

    def eq(self, a, b):
        """Python a == b as an engine value."""
        a, b = self.force(a), self.force(b)
        if isinstance(a, Sym):
            a = self.dec_term(a.t)
        if isinstance(b, Sym):
            b = self.dec_term(b.t)
        if is_native(a) and is_native(b):
            return a == b
        na, nb = self.as_num(a), self.as_num(b)
        if na and nb:
            return self.bval(self.num_eq(na, nb))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.bval(self.strt(a) == self.strt(b))
        if isinstance(a, (str, SStr)) and isinstance(b, Sym) or isinstance(b, (str, SStr)) and isinstance(a, Sym) \
                or isinstance(a, Sym) and isinstance(b, Sym):
            return self.bval(self.pyeq_term(self.enc(a), self.enc(b)))
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq(self.narrow(a), self.narrow(b))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return False
            for x, y in zip(a.items, b.items):
                if not self.truth(self.eq(x, y)):
                    return False
            return True
        own = [self.own_eq(a), self.own_eq(b)]
        if own[0] or own[1]:
            # the right operand goes first if its class is a proper subclass of the left one's
            turns = [(a, b, own[0]), (b, a, own[1])]
            if own[0] and own[1] and own[0][0] is not own[1][0] and issubclass(own[1][0], own[0][0]):
                turns.reverse()
            for x, y, o in turns:
                if o:
                    r = self.call(o[1], [x, y], {})
                    if r is not NotImplemented:
                        return r
            return self.is_(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                c = self.cell(x)
                if isinstance(y, Ref) and y == x:
                    return True
                if isinstance(c, InstCell):
                    if isinstance(y, Ref) or not isinstance(y, SObj):
                        return False
                    return self.bval(self.oeq(self.enc(x), self.enc(y)))
                if isinstance(y, Ref):
                    return self.eq_cells(x, y)
                if isinstance(y, (Tup, str, SStr)) or y is None or self.as_num(y):
                    if isinstance(y, Tup) and isinstance(c, SeqCell) and issubclass(c.cls, tuple):
                        return self.eq_segs(c.segs, [Item(v) for v in y.items])
                    return False
        if isinstance(a, SObj) or isinstance(b, SObj):
            o, p = (a, b) if isinstance(a, SObj) else (b, a)
            if o.cls is not None:
                if isinstance(p, SObj) and p.cls is not None or not isinstance(p, SObj):
                    return self.bval(self.enc(a) == self.enc(b))
            if isinstance(p, (BMeth, Func)):
                return False
            return self.bval(self.oeq(self.enc(a), self.enc(b)))
        if a is None or b is None:
            return False
        if isinstance(a, Val) and isinstance(b, Val):
            if type(a) is type(b) and isinstance(a, (BMeth,)):
                return self.truth(self.eq(a.self, b.self)) and a.func is b.func
            return a is b
        return False

    def eq_cells(self, x, y):
        c, d = self.cell(x), self.cell(y)
        if isinstance(c, SeqCell) and isinstance(d, SeqCell):
            return self.eq_segs(c.segs, d.segs)
        if isinstance(c, SetCell) and isinstance(d, SetCell):
            if len(c.items) != len(d.items):
                return False
            for i in c.items:
                if not any(self.truth(self.eq(i, j)) for j in d.items):
                    return False
            return True
        if isinstance(c, DictCell) and isinstance(d, DictCell):
            ia, ib = self.concrete_items(c), self.concrete_items(d)
            if ia is None or ib is None:
                raise Unsupported('equality of symbolic dictionaries')
            if len(ia) != len(ib):
                return False
            for k, v in ia:
                w = [v2 for k2, v2 in ib if self.truth(self.eq(k, k2))]
                if not w or not self.truth(self.eq(v, w[0])):
                    return False
            return True
        return False

    def eq_segs(self, s, t):
        if all(isinstance(x, Item) for x in s) and all(isinstance(x, Item) for x in t):
            if len(s) != len(t):
                return False
            for x, y in zip(s, t):
                if not self.truth(self.eq(x.v, y.v)):
                    return False
            return True
        if len(s) == 0 or len(t) == 0:
            return not self.branch_term(self.segs_nonempty(s or t))
        raise Unsupported('== of symbolic sequences')

    def branch_term(self, t):
        return self.branch(t)

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Sym):
            a = self.dec_term(a.t)
        if isinstance(b, Sym):
            b = self.dec_term(b.t)
        if is_native(a) and is_native(b):
            return a is b or (isinstance(a, (str, int, float)) and type(a) is type(b) and a == b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, (Func, GenV, PropObj)) or isinstance(b, (Func, GenV, PropObj)):
            return a is b
        if isinstance(a, (BMeth, NMeth)) or isinstance(b, (BMeth, NMeth)):
            return False
        if isinstance(a, Tup) or isinstance(b, Tup):
            return a is b
        return self.bval(self.enc(a) == self.enc(b))

    def strt(self, v):
        return str_const(v) if isinstance(v, str) else v.t

    # ============================================================ class lookup and attributes
    def class_lookup(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None:
            mro = mro[list(mro).index(after) + 1:]
        for c in mro:
            if (c, name) in self.overlay:
                v = self.overlay[(c, name)]
                if v is not MISSING:
                    return self.check_poison(v)
                continue
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def check_poison(self, v):
        if isinstance(v, Poison):
            raise PoisonRead(v.loc)
        if isinstance(v, LastVal):
            return self.force(v)
        return v

    def bind(self, d, obj, cls):
        """Descriptor protocol for a class attribute d found for obj (None: class access)."""
        if isinstance(d, property):
            if obj is None:
                return d
            if d.fget is None:
                self.raise_py(AttributeError, 'unreadable attribute')
            return self.call(d.fget, [obj], {})
        if isinstance(d, PropObj):
            if obj is None:
                return d
            if d.fget is None:
                self.raise_py(AttributeError, 'unreadable attribute')
            return self.call(d.fget, [obj], {})
        if isinstance(d, (types.FunctionType, Func)):
            return d if obj is None else BMeth(d, obj)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return BMeth(d.__func__, cls)
        if isinstance(d, (types.MethodDescriptorType, types.WrapperDescriptorType,
                          types.ClassMethodDescriptorType, types.BuiltinFunctionType)):
            nm = d.__name__
            if nm == '__new__':
                return d
            if obj is None:
                return UMeth(cls, nm) if not isinstance(d, types.ClassMethodDescriptorType) else NMeth(cls, nm)
            return NMeth(obj, nm)
        if isinstance(d, Opaque) and obj is not None:
            return BMeth(d, obj)
        if isinstance(d, (types.GetSetDescriptorType, types.MemberDescriptorType)):
            if obj is None:
                return d
            if d.__name__ == '__class__':
                return cls
            if d.__name__ in ('__doc__',):
                return None
            raise Unsupported('getset descriptor %s' % d.__name__)
        return self.lift(d)

    def getattr_(self, obj, name, default=MISSING):
        name = self.force(name)
        if isinstance(name, Sym):
            name = self.narrow(name)
        if isinstance(name, SStr):
            return self.sym_getattr(obj, name, default)
        if not isinstance(name, str):
            self.raise_py(TypeError, 'attribute name must be string')
        v = self.getattr0(obj, name)
        if v is MISSING:
            if default is not MISSING:
                return default
            self.raise_py(AttributeError, name)
        return v

    def getattr0(self, obj, name):
        """Attribute value or MISSING; exceptions from properties propagate,
        except AttributeError which the callers treat as Python does."""
        obj = self.narrow(obj)
        if isinstance(obj, type):
            return self.class_getattr(obj, name)
        if isinstance(obj, SuperV):
            return self.super_getattr(obj, name)
        if isinstance(obj, Ref):
            c = self.cell(obj)
            cls = c.cls
            d = self.class_lookup(cls, name)
            if isinstance(d, (property, PropObj)):
                return self.bind(d, obj, cls)
            if name == '__class__':
                return cls
            attrs = c.attrs
            if name in attrs:
                v = attrs[name]
                if v is not MISSING:
                    return self.check_poison(v)
            if name == '__dict__':
                raise Unsupported('instance __dict__')
            if d is not MISSING:
                return self.bind(d, obj, cls)
            return self.fallback_getattr(obj, cls, name)
        if isinstance(obj, SObj):
            if obj.cls is None:
                return self.opaque_getattr(obj, name)
            d = self.class_lookup(obj.cls, name)
            if isinstance(d, (property, PropObj)):
                return self.bind(d, obj, obj.cls)
            if name == '__class__':
                return obj.cls
            ov = self.ghost.get(('sattr', z3.simplify(obj.oid).sexpr(), name))
            if ov is not None:
                return self.check_poison(ov)
            v = obj.schema(self, obj, name) if obj.schema else MISSING
            if v is not MISSING:
                return v
            if d is not MISSING:
                return self.bind(d, obj, obj.cls)
            return self.fallback_getattr(obj, obj.cls, name)
        if name == '__class__' and isinstance(obj, (SStr, SInt, SBool, SFl, SCx)):
            return self.class_of(obj)
        if isinstance(obj, (SStr,)):
            return NMeth(obj, name) if hasattr('', name) else MISSING
        if isinstance(obj, SInt):
            if name in ('real', 'numerator'):
                return obj
            if name == 'imag':
                return 0
            return NMeth(obj, name) if hasattr(0, name) else MISSING
        if isinstance(obj, SBool):
            if name in ('real',):
                return SInt(z3.If(obj.t, z3.IntVal(1), z3.IntVal(0)))
            if name == 'imag':
                return 0
            return NMeth(obj, name) if hasattr(0, name) else MISSING
        if isinstance(obj, SFl):
            if name == 'real':
                return obj
            if name == 'imag':
                return SFl(FL.fin(z3.RealVal(0)))
            return NMeth(obj, name) if hasattr(0.0, name) else MISSING
        if isinstance(obj, SCx):
            if name == 'real':
                return SFl(obj.re)
            if name == 'imag':
                return SFl(obj.im)
            return NMeth(obj, name) if hasattr(0j, name) else MISSING
        if isinstance(obj, Tup):
            fields = getattr(obj.cls, '_fields', None)
            if fields and name in fields:
                return obj.items[fields.index(name)]
            if name == '__class__':
                return obj.cls
            return NMeth(obj, name) if hasattr(obj.cls, name) else MISSING
        if isinstance(obj, Func):
            if name == '__name__':
                return obj.attrs.get(name, obj.name)
            if name == '__code__':
                return CodeV(obj.node)
            return obj.attrs.get(name, MISSING)
        if isinstance(obj, BMeth):
            if name == '__self__':
                return obj.self
            if name == '__func__':
                return obj.func
            if name == '__name__':
                return self.getattr0(obj.func, name)
            return MISSING
        if isinstance(obj, NMeth):
            return MISSING
        if isinstance(obj, DictView):
            return MISSING
        if isinstance(obj, (GenV, SegsV)):
            return NMeth(obj, name) if name in ('__iter__', '__next__') else MISSING
        if isinstance(obj, PropObj) and name in ('fget', 'fset', 'fdel'):
            return getattr(obj, name)
        if isinstance(obj, CodeV) and name == 'co_argcount':
            return len(obj.node.args.args) + len(obj.node.args.posonlyargs)
        if isinstance(obj, Opaque):
            raise Unsupported('attribute of %s' % obj.name)
        if is_native(obj):
            if isinstance(obj, str) or isinstance(obj, (int, float, complex)):
                if not hasattr(obj, name):
                    return MISSING
                if name in ('real', 'imag'):
                    return getattr(obj, name)
                if name == '__class__':
                    return type(obj)
                return NMeth(obj, name)
            try:
                r = getattr(obj, name)
            except AttributeError:
                return MISSING
            return self.lift(r)
        raise Unsupported('getattr on %s' % type(obj).__name__)

    def fallback_getattr(self, obj, cls, name):
        """The class's own __getattr__, when the normal lookup failed."""
        g = self.class_lookup(cls, '__getattr__')
        if g is MISSING or name.startswith('__'):
            return MISSING
        return self.call(g, [obj, name], {})

    def class_getattr(self, cls, name):
        if name == '__name__' or name == '__module__' or name == '__qualname__' or name == '__mro__':
            return self.lift(getattr(cls, name))
        if name == '__class__':
            return type(cls)
        meta = type(cls)
        d = self.class_lookup(cls, name)
        if d is not MISSING:
            return self.bind(d, None, cls)
        m = self.class_lookup(meta, name)
        if m is not MISSING:
            return self.bind(m, cls, meta)
        return MISSING

    def super_getattr(self, sv, name):
        obj = sv.obj
        if isinstance(obj, type) and sv.cls not in type(obj).__mro__:
            # classmethod super: obj is a class
            d = self.class_lookup(obj, name, after=sv.cls)
            if d is MISSING:
                return MISSING
            if isinstance(d, classmethod):
                return BMeth(d.__func__, obj)
            return self.bind(d, None, obj)
        cls = type(obj) if isinstance(obj, type) else self.class_of(obj)
        if cls is None:
            raise Unsupported('super on opaque object')
        d = self.class_lookup(cls, name, after=sv.cls)
        if d is MISSING:
            return MISSING
        return self.bind(d, obj, cls)

    def opaque_getattr(self, obj, name):
        if obj.schema == 'exc' and name in ('error_tuples', 'args', 'message'):
            if name == 'error_tuples':
                if not self.truth(self.has_error_tuples(obj)):
                    return MISSING
                return self.err_tuples(obj)
        if name == '__class__':
            f = z3.Function('classof', INT, INT)
            return SObj(type, f(obj.oid), class_schema)
        h = z3.Function('hasattr!' + name, INT, BOOL)(obj.oid)
        if not self.branch(h):
            return MISSING
        f = z3.Function('attr!' + name, INT, V)(obj.oid)
        return self.dec_term(f)

    def has_error_tuples(self, exc):
        import properties
        p = self.isinst_pred(exc.oid, properties.ValidationError)
        h = z3.Function('hasattr!error_tuples', INT, BOOL)(exc.oid)
        self.fact(z3.Implies(p, h))
        return SBool(h)

    def err_tuples(self, exc):
        """error_tuples of an opaque exception: an opaque list, fixed per exception."""
        f = z3.Function('errtuples', INT, INT)
        key = ('ets', z3.simplify(exc.oid).sexpr())
        if key not in self.ghost:
            self.ghost[key] = self.alloc(SeqCell(list, [OSeg(f(exc.oid))]))
        return self.ghost[key]

    def setattr_(self, obj, name, val):
        name = self.force(name)
        if isinstance(name, Sym):
            name = self.narrow(name)
        obj = self.narrow(obj)
        if isinstance(name, SStr):
            return self.sym_setattr(obj, name, val)
        if isinstance(obj, Ref):
            c = self.cell(obj)
            d = self.class_lookup(c.cls, name)
            if isinstance(d, (property, PropObj)):
                if d.fset is None:
                    self.raise_py(AttributeError, "can't set attribute")
                self.call(d.fset, [obj, val], {})
                return
            m = self.class_lookup(c.cls, '__setattr__')
            if isinstance(m, types.FunctionType):
                self.call(m, [obj, name, val], {})
                return
            self.raw_setattr(obj, name, val)
            return
        if isinstance(obj, type):
            self.overlay[(obj, name)] = val
            return
        if isinstance(obj, SObj):
            if obj.cls is not None:
                d = self.class_lookup(obj.cls, name)
                if isinstance(d, (property, PropObj)):
                    if d.fset is None:
                        self.raise_py(AttributeError, "can't set attribute")
                    self.call(d.fset, [obj, val], {})
                    return
                if self.loop_idx:
                    raise Unsupported('attribute write on symbolic object in a loop')
                self.ghost[('sattr', z3.simplify(obj.oid).sexpr(), name)] = val
                return
            raise Unsupported('setattr on opaque object')
        if isinstance(obj, Func):
            obj.attrs[name] = val
            return
        if isinstance(obj, (SInt, SStr, SBool, SFl, SCx, Tup)) or isinstance(obj, SCALARS):
            self.raise_py(AttributeError, name)
        raise Unsupported('setattr on %r' % (obj,))

    def raw_setattr(self, obj, name, val):
        c = self.cell(obj)
        a = dict(c.attrs)
        a[name] = val
        self.heap[obj.id] = self.with_attrs(c, a)

    def with_attrs(self, c, a):
        if isinstance(c, InstCell):
            return InstCell(c.cls, a)
        if isinstance(c, SeqCell):
            return SeqCell(c.cls, c.segs, a)
        if isinstance(c, DictCell):
            return DictCell(c.cls, c.base, c.writes, a)
        return SetCell(c.cls, c.items, a)

    def delattr_(self, obj, name):
        name = self.force(name)
        if isinstance(name, Sym):
            name = self.narrow(name)
        obj = self.narrow(obj)
        if isinstance(name, SStr):
            return self.sym_delattr(obj, name)
        if isinstance(obj, Ref):
            c = self.cell(obj)
            d = self.class_lookup(c.cls, name)
            if isinstance(d, (property, PropObj)):
                if d.fdel is None:
                    self.raise_py(AttributeError, "can't delete attribute")
                self.call(d.fdel, [obj], {})
                return
            if name not in c.attrs:
                self.raise_py(AttributeError, name)
            a = dict(c.attrs)
            del a[name]
            self.heap[obj.id] = self.with_attrs(c, a)
            return
        raise Unsupported('delattr')

    # symbolic attribute names: resolved through the abstract class' property table
    def sym_desc(self, obj, name):
        """(kind, value) for a symbolic attribute name on an abstract HasProperties object."""
        cls = self.class_of(obj)
        props = self.class_lookup(cls, '_props')
        if not isinstance(props, Ref):
            raise Unsupported('symbolic attribute name')
        c = self.cell(props)
        if c.base is None:
            for w in c.writes:
                if self.truth(self.eq(w.k, name)):
                    return ('concrete', w.k)
            return ('other', name)
        t = self.enc(name)
        if self.branch(c.base.has(t)):
            prop = c.base.factory(t)
            pm = self.getattr_(prop, 'get_property')
            return ('prop', self.call(pm, [], {}))
        return ('other', name)

    def sym_getattr(self, obj, name, default):
        k, d = self.sym_desc(obj, name)
        if k == 'concrete':
            return self.getattr_(obj, d, default)
        if k == 'prop':
            return self.bind(d, obj, self.class_of(obj))
        # stated assumption: an arbitrary name that is no property is no attribute either
        if default is MISSING:
            self.raise_py(AttributeError, 'no such attribute')
        return default

    def sym_setattr(self, obj, name, val):
        k, d = self.sym_desc(obj, name)
        if k == 'concrete':
            return self.setattr_(obj, d, val)
        if k == 'prop':
            if d.fset is None:
                self.raise_py(AttributeError, "can't set attribute")
            self.call(d.fset, [obj, val], {})
            return
        h = self.ghost.get('sym_other_setattr')
        if h is None:
            raise Unsupported('symbolic attribute')
        h(obj, name, val)

    def sym_delattr(self, obj, name):
        k, d = self.sym_desc(obj, name)
        if k == 'concrete':
            return self.delattr_(obj, d)
        if k == 'prop':
            if d.fdel is None:
                self.raise_py(AttributeError, "can't delete attribute")
            self.call(d.fdel, [obj], {})
            return
        raise Unsupported('symbolic attribute')

    # ============================================================ calls
    def call(self, f, args, kwargs, star=None):
        """Call engine value f. kwargs: dict name->value. star: Ref to a symbolic ** dict."""
        f = self.narrow(f)
        if self.stands:
            f = self.ghost.get(('stand', id(f)), f)
        if self.depth > 60:
            self.check_time()
        if isinstance(f, BMeth):
            return self.call(f.func, [f.self] + list(args), kwargs, star)
        if isinstance(f, Func):
            return self.call_func(f.node, f.env, f.glob, f.name, f.defaults, f.kwdefaults,
                                  args, kwargs, star, f.defcls)
        if isinstance(f, NMeth):
            return self.builtin_method(f.self, f.name, list(args), kwargs)
        if isinstance(f, UMeth):
            return self.builtin_method(args[0], f.name, list(args[1:]), kwargs, f.cls)
        if isinstance(f, types.FunctionType):
            m = self.intr.get(f)
            if m is not None:
                self.no_star(star)
                return m(self, args, kwargs)
            m = self.models.get(f)
            if m is not None:
                self.no_star(star)
                return m(self, args, kwargs)
            if interpretable(f):
                return self.call_native_func(f, args, kwargs, star)
            return self.call_builtin(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs, star)
        if isinstance(f, SObj):
            if f.cls is None:
                return self.call_opaque(f, args, kwargs, star)
            if f.cls is type:
                return self.call_opaque(f, args, kwargs, star)
            d = self.class_lookup(f.cls, '__call__')
            if d is MISSING:
                self.raise_py(TypeError, 'not callable')
            return self.call(d, [f] + list(args), kwargs, star)
        if isinstance(f, Ref):
            c = self.cell(f)
            d = self.class_lookup(c.cls, '__call__')
            if d is MISSING:
                self.raise_py(TypeError, 'not callable')
            return self.call(d, [f] + list(args), kwargs, star)
        if isinstance(f, (staticmethod, classmethod)):
            return self.call(f.__func__, args, kwargs, star)
        if isinstance(f, Opaque):
            if f.name == 'identity_decorator':
                return args[0]
            m = self.models.get(f.name)
            if m is None:
                raise Unsupported('call of %s' % f.name)
            return m(self, args, kwargs)
        if f is None or isinstance(f, (SStr, SInt, SBool, SFl, SCx, Tup, str, int, float)):
            self.raise_py(TypeError, 'not callable')
        if isinstance(f, functools.partial):
            kw = {k: self.lift(v) for k, v in f.keywords.items()}
            kw.update(kwargs)
            return self.call(self.lift(f.func), [self.lift(a) for a in f.args] + list(args), kw, star)
        return self.call_builtin(f, args, kwargs)

    def no_star(self, star):
        if star is not None:
            raise Unsupported('symbolic ** into a model')

    def call_opaque(self, f, args, kwargs, star):
        h = self.ghost.get('call_opaque')
        if h is None:
            raise Unsupported('call of an opaque object')
        return h(f, args, kwargs, star)

    def call_native_func(self, fn, args, kwargs, star):
        node = func_node(fn)
        parent = None
        if fn.__closure__:
            cells = {}
            for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    cells[nm] = self.lift(c.cell_contents)
                except ValueError:
                    cells[nm] = MISSING
            ck = ('clos', id(fn))
            if ck not in self.ghost:
                self.ghost[ck] = self.alloc(EnvCell(cells))
            parent = Frame(self.ghost[ck].id, None, fn.__globals__, None,
                           defcls=cells.get('__class__'))
            parent.info = _ClosInfo(cells)
        defaults = [self.lift(d) for d in (fn.__defaults__ or ())]
        kwd = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
        self.stats.functions.add('%s:%s' % (os.path.relpath(fn.__code__.co_filename, REPO)
                                            if fn.__code__.co_filename.startswith(REPO)
                                            else os.path.basename(fn.__code__.co_filename),
                                            fn.__qualname__))
        defcls = None
        if parent is not None and isinstance(parent.defcls, type):
            defcls = parent.defcls
        return self.call_func(node, parent, fn.__globals__, fn.__name__, defaults, kwd,
                              args, kwargs, star, defcls)

    def call_func(self, node, parent, glob, name, defaults, kwdefaults, args, kwargs, star, defcls):
        info = scope_of(node)
        if info.is_gen:
            raise Unsupported('generator function')
        a = node.args
        env = {}
        pos = a.posonlyargs + a.args
        kwargs = dict(kwargs)
        if len(args) > len(pos) and not a.vararg:
            self.raise_py(TypeError, 'too many arguments')
        for p, v in zip(pos, args):
            env[p.arg] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(pos):])
        nd = len(defaults)
        for i, p in enumerate(pos):
            if p.arg in kwargs:
                if p.arg in env:
                    self.raise_py(TypeError, 'multiple values for argument')
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[p.arg] = defaults[j]
                elif star is None:
                    self.raise_py(TypeError, 'missing argument %s' % p.arg)
                else:
                    raise Unsupported('argument from symbolic **')
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif p.arg in kwdefaults:
                env[p.arg] = kwdefaults[p.arg]
            else:
                self.raise_py(TypeError, 'missing kw argument')
        if a.kwarg:
            writes = [W(k, v) for k, v in kwargs.items()]
            if star is not None:
                sc = self.cell(star)
                env[a.kwarg.arg] = self.alloc(DictCell(dict, sc.base, tuple(sc.writes) + tuple(writes)))
            else:
                env[a.kwarg.arg] = self.alloc(DictCell(dict, None, writes))
        elif kwargs:
            self.raise_py(TypeError, 'unexpected keyword argument')
        elif star is not None:
            raise Unsupported('symbolic ** into fixed signature')
        envref = self.alloc(EnvCell(env))
        fr = Frame(envref.id, parent, glob, info, defcls, pos[0].arg if pos else None, name)
        self.depth += 1
        if self.depth > 120:
            raise Unsupported('recursion depth')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            self.block(node.body, fr)
            return None
        except ReturnEx as r:
            return r.val
        finally:
            self.depth -= 1

    # ============================================================ names
    def lookup_name(self, name, fr):
        f = fr
        while f is not None:
            if f.info is not None and (name in f.info.locals):
                v = self.heap[f.env].vars.get(name, MISSING)
                if v is MISSING:
                    if isinstance(f.info, _ClosInfo):
                        f = f.parent
                        continue
                    self.raise_py(UnboundLocalError, name)
                if isinstance(v, (Poison, LastVal)):
                    v = self.force(v)
                return v
            f = f.parent
        if (('glob', id(fr.glob)), name) in self.overlay:
            return self.check_poison(self.overlay[(('glob', id(fr.glob)), name)])
        if name in fr.glob:
            return self.lift(fr.glob[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_py(NameError, name)

    def store_name(self, name, val, fr):
        f = fr
        if f.info is not None and name in f.info.globals:
            self.overlay[(('glob', id(fr.glob)), name)] = val
            return
        if f.info is not None and name not in f.info.locals:
            g = f.parent
            while g is not None:
                if g.info is not None and name in g.info.locals:
                    f = g
                    break
                g = g.parent
        vs = dict(self.heap[f.env].vars)
        vs[name] = val
        self.heap[f.env] = EnvCell(vs)

    # ============================================================ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        del self.where[self.depth:]
        self.where.append('%s:%d' % (fr.fname, s.lineno))
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                raise Unsupported('starred assignment')
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        v = self.narrow(v)
        if isinstance(v, Tup):
            if len(v.items) != n:
                self.raise_py(ValueError, 'unpack')
            return v.items
        segs = self.iter_segs(v)
        if all(isinstance(s, Item) for s in segs):
            if len(segs) != n:
                self.raise_py(ValueError, 'unpack')
            return [s.v for s in segs]
        raise Unsupported('unpacking a symbolic sequence')

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup_name(s.target.id, fr)
            new = self.inplace(op, cur, self.ev(s.value, fr))
            if not (new is cur and isinstance(cur, Ref) and s.target.id in self.heap[fr.env].vars):
                self.store_name(s.target.id, new, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            cur = self.getattr_(o, s.target.attr)
            self.setattr_(o, s.target.attr, self.inplace(op, cur, self.ev(s.value, fr)))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            i = self.ev(s.target.slice, fr)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported('augmented assignment')

    INPLACE = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'BitOr': '__ior__',
               'BitAnd': '__iand__', 'BitXor': '__ixor__'}

    def inplace(self, op, cur, val):
        cur = self.force(cur)
        if isinstance(cur, Sym):
            cur = self.narrow(cur)
        if isinstance(cur, Ref):
            c = self.cell(cur)
            nm = self.INPLACE.get(op)
            if nm:
                d = self.class_lookup(c.cls, nm)
                if isinstance(d, (types.FunctionType, Func)):
                    return self.call(d, [cur, val], {})
                if isinstance(c, SeqCell) and issubclass(c.cls, list) and op == 'Add':
                    self.seq_extend(cur, val)
                    return cur
                if isinstance(c, (SeqCell, SetCell, DictCell)) and d is not MISSING:
                    return self.builtin_method(cur, nm, [val], {})
        return self.binop(op, cur, val)

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = self.ghost.get('curexc')
            if not cur:
                raise Unsupported('bare raise without exception')
            raise PyExc(cur[-1])
        e = self.narrow(self.ev(s.exc, fr))
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.instantiate(e, [], {})
        if is_native(e) or isinstance(e, (SInt, SStr, SBool, Tup)):
            self.raise_py(TypeError, 'exceptions must derive from BaseException')
        raise PyExc(e)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            self.raise_py(AssertionError)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                vs = dict(self.heap[fr.env].vars)
                if t.id not in vs:
                    self.raise_py(UnboundLocalError, t.id)
                del vs[t.id]
                self.heap[fr.env] = EnvCell(vs)
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Tuple):
                for e in t.elts:
                    self.s_Delete(ast.Delete(targets=[e]), fr)
            else:
                raise Unsupported('del')

    def s_Global(self, s, fr):
        pass

    def s_Nonlocal(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for al in s.names:
            m = __import__(al.name)
            self.store_name((al.asname or al.name).split('.')[0], m, fr)

    def s_ImportFrom(self, s, fr):
        if s.level:
            raise Unsupported('relative import')
        m = __import__(s.module, fromlist=['x'])
        for al in s.names:
            self.store_name(al.asname or al.name, self.lift(getattr(m, al.name)), fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        self.store_name(s.name, f, fr)

    def make_func(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Func(node, fr, fr.glob, getattr(node, 'name', '<lambda>'), defaults, kwd, fr.defcls)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        ex = self.getattr_(cm, '__exit__')
        val = self.call(self.getattr_(cm, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        try:
            self.with_items(items[1:], body, fr)
        except PyExc as e:
            if not self.truth(self.call(ex, [self.exc_class(e.val), e.val, None], {})):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.call(ex, [None, None, None], {})
            raise
        else:
            self.call(ex, [None, None, None], {})

    def exc_class(self, v):
        if isinstance(v, Ref):
            return self.cell(v).cls
        return Opaque('exception class')

    def s_Try(self, s, fr):
        def body():
            try:
                self.block(s.body, fr)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_isinstance(e.val, self.ev(h.type, fr))
                    if ok:
                        if h.name:
                            self.store_name(h.name, e.val, fr)
                        old = self.ghost.get('curexc', ())
                        self.ghost['curexc'] = old + (e.val,)
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.ghost['curexc'] = old
                        if h.name:
                            vs = dict(self.heap[fr.env].vars)
                            vs.pop(h.name, None)
                            self.heap[fr.env] = EnvCell(vs)
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            body()
            return
        try:
            body()
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    # loops --------------------------------------------------------
    def s_For(self, s, fr):
        it = self.ev(s.iter, fr)

        def body(v):
            self.assign(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except ContinueEx:
                pass
        if self.iterate(it, body):
            self.block(s.orelse, fr)

    def s_While(self, s, fr):
        n = 0
        while True:
            t = self.truth_term(self.ev(s.test, fr))
            if not self.branch(t):
                break
            n += 1
            if n > 12:
                raise Unsupported('unbounded while loop')
            try:
                self.block(s.body, fr)
            except ContinueEx:
                continue
            except BreakEx:
                return
        self.block(s.orelse, fr)

    def iterate(self, it, body):
        """Run body on every element; True if exhausted, False on break."""
        it = self.narrow(it)
        if isinstance(it, GenV):
            return self.iterate_gen(it, body)
        segs = self.iter_segs(it)
        try:
            self.iter_over(segs, body)
        except BreakEx:
            return False
        return True

    def iter_over(self, segs, body):
        for s in segs:
            if isinstance(s, Item):
                body(s.v)
            elif isinstance(s, ISeg):
                self.summarise(s, body)
            elif isinstance(s, OSeg):
                # the error tuples of an opaque ValidationError
                kk = z3.Const(self.uniq('oi'), INT)
                el = z3.Function('osegat', INT, INT, INT)(s.oid, kk)
                self.ghost[('ctor', 'osegat')] = error_tuple_object
                self.summarise(ISeg(kk, self.oseg_len(s), [(z3.BoolVal(True), (Item(error_tuple_object(el)),))]), body)
            elif isinstance(s, PHSeg):
                raise PoisonRead(s.loc)

    def iterate_gen(self, g, body):
        """Iterate a generator expression (lazily fused with the consumer)."""
        node, fr = g.node, g.frame
        cf = self.comp_frame(node, fr)

        def level(i, first):
            if i == len(node.generators):
                body(self.ev(node.elt, cf))
                return
            gen = node.generators[i]
            src = first if i == 0 else self.ev(gen.iter, cf)

            def inner(v):
                self.assign(gen.target, v, cf)
                for c in gen.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                level(i + 1, None)
            src = self.narrow(src)
            if isinstance(src, GenV):
                self.iterate_gen_raw(src, inner)
            else:
                self.iter_over(self.iter_segs(src), inner)
        try:
            level(0, g.first)
        except BreakEx:
            return False
        return True

    def iterate_gen_raw(self, g, body):
        if not self.iterate_gen(g, body):
            raise BreakEx()

    def comp_frame(self, node, fr):
        names = set()
        for gen in node.generators:
            for sub in ast.walk(gen.target):
                if isinstance(sub, ast.Name):
                    names.add(sub.id)
        env = self.alloc(EnvCell({}))
        return Frame(env.id, fr, fr.glob, _CompInfo(names), fr.defcls, fr.selfname, fr.fname)

    # ============================================================ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup_name(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.iter_segs(self.ev(x.value, fr))
                if not all(isinstance(s, Item) for s in segs):
                    raise Unsupported('starred symbolic sequence')
                items += [s.v for s in segs]
            else:
                items.append(self.ev(x, fr))
        return Tup(items)

    def e_List(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(self.iter_segs(self.ev(x.value, fr)))
            else:
                segs.append(Item(self.ev(x, fr)))
        return self.alloc(SeqCell(list, segs))

    def e_Set(self, e, fr):
        r = self.alloc(SetCell(set, ()))
        for x in e.elts:
            self.set_add(r, self.ev(x, fr))
        return r

    def e_Dict(self, e, fr):
        r = self.alloc(DictCell(dict))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v, fr))
            else:
                kv = self.ev(k, fr)
                self.dict_set(r, kv, self.ev(v, fr))
        return r

    def e_ListComp(self, e, fr):
        r = self.alloc(SeqCell(list, ()))
        g = self.make_gen(e, fr)
        self.iterate_gen(g, lambda v: self.seq_append(r, v))
        return r

    def e_SetComp(self, e, fr):
        r = self.alloc(SetCell(set, ()))
        g = self.make_gen(e, fr)
        self.iterate_gen(g, lambda v: self.set_add(r, v))
        return r

    def e_GeneratorExp(self, e, fr):
        return self.make_gen(e, fr)

    def e_DictComp(self, e, fr):
        r = self.alloc(DictCell(dict))
        node = ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()),
                                generators=e.generators)
        g = self.make_gen(node, fr)
        self.iterate_gen(g, lambda v: self.dict_set(r, v.items[0], v.items[1]))
        return r

    def make_gen(self, e, fr):
        first = self.ev(e.generators[0].iter, fr)
        return GenV(e, fr.env, fr.glob, first, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while isinstance(f.info, _CompInfo):
            f = f.parent
        self.store_name(e.target.id, v, f)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth_term(v)
            if self.branch(t) != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else self.bval(z3.Not(t))
        v = self.narrow(v)
        if is_native(v):
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.Invert):
                return ~v
            return +v
        n = self.as_num(v)
        if n and isinstance(e.op, ast.USub):
            return self.neg(n)
        if n and isinstance(e.op, ast.UAdd):
            return v
        return self.opaque_op(type(e.op).__name__, [v])

    def neg(self, n):
        if n[0] == 'i':
            return self.ival(-n[1])
        if n[0] == 'f':
            return SFl(self.fl_neg(n[1]))
        return SCx(self.fl_neg(n[1]), self.fl_neg(n[2]))

    def fl_neg(self, x):
        return z3.If(FL.is_fin(x), FL.fin(-FL.r(x)),
                     z3.If(x == FL.pinf, FL.ninf, z3.If(x == FL.ninf, FL.pinf, FL.nan)))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            res = self.compare(type(op).__name__, left, right)
            if i < len(e.ops) - 1 and not self.truth(res):
                return res
            left = right
        return res

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.ev(x, fr)
        return Tup([f(e.lower), f(e.upper), f(e.step)], slice)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, fr)
                parts.append(x if v.conversion == -1 and v.format_spec is None else None)
            else:
                parts.append(v.value)
        if all(isinstance(x, (str, SStr)) for x in parts):
            return self.concat_text(parts)
        return self.opaque_str('fstr')

    def strlen(self, t):
        """Length of a string term; uninterpreted for formatted (opaque) text."""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('str_'):
            n = z3.Function('slen', STR, INT)(t)
            self.fact(n >= 0)
            return n
        return z3.Length(t)

    def opaque_str(self, why):
        return SStr(self.fresh('str_' + why, STR))

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Call(self, e, fr):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args and not e.keywords:
            f = fr
            while f is not None and (f.selfname is None or isinstance(f.info, _CompInfo)):
                f = f.parent
            cls = fr.defcls
            if cls is None:
                raise Unsupported('super() without class cell')
            return SuperV(cls, self.heap[f.env].vars[f.selfname])
        f = self.ev(e.func, fr)
        args, kwargs, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.narrow(self.ev(a.value, fr))
                segs = self.iter_segs(v)
                if not all(isinstance(s, Item) for s in segs):
                    raise Unsupported('* of a symbolic sequence')
                args += [s.v for s in segs]
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is not None:
                kwargs[k.arg] = v
                continue
            v = self.narrow(v)
            if not isinstance(v, Ref) or not isinstance(self.cell(v), DictCell):
                if isinstance(v, SObj) and v.cls is None:
                    star = v
                    continue
                self.raise_py(TypeError, 'argument after ** must be a mapping')
            items = self.concrete_items(self.cell(v))
            if items is not None and all(isinstance(a, str) for a, _ in items):
                for a, b in items:
                    if a in kwargs:
                        self.raise_py(TypeError, 'multiple values for keyword')
                    kwargs[a] = b
            else:
                if star is not None:
                    raise Unsupported('two symbolic **')
                star = v
        return self.call(f, args, kwargs, star)


class _CompInfo(object):
    def __init__(self, names):
        self.locals = names
        self.globals = set()
        self.nonlocals = set()


class _ClosInfo(object):
    def __init__(self, cells):
        self.locals = set(cells)
        self.globals = set()
        self.nonlocals = set()


def error_tuple_object(o):
    import properties
    from properties import utils

    def schema(eng, obj, name):
        if name in utils.ErrorTuple._fields:
            return Sym(z3.Function('errtuple!' + name, INT, V)(obj.oid))
        return MISSING
    return SObj(utils.ErrorTuple, o, schema)


def class_schema(eng, obj, name):
    if name == '__name__':
        return SStr(z3.Function('classname', INT, STR)(obj.oid))
    return MISSING


_LAYOUT = (list, tuple, dict, set, frozenset, str, bytes, int, float, complex, type, types.FunctionType,
           BaseException)


def disjoint_classes(c, d):
    """Can no object be an instance of both?"""
    def lay(x):
        return [k for k in _LAYOUT if issubclass(x, k)]
    a, b = lay(c), lay(d)
    if a and b:
        return not (set(a) & set(b))
    return False
