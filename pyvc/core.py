"""Values, state, path exploration and solver access of the verifier.

The verifier interprets the AST of the real functions (re-read from /repo on
every run) over symbolic values, generating verification conditions that z3
(and, for unknowns, cvc5) decides.  Nothing here knows about any property.
"""
import time
import types
import z3

# ---------------------------------------------------------------- sorts
_FL = z3.Datatype('FL')
_FL.declare('fin', ('r', z3.RealSort()))
_FL.declare('nan')
_FL.declare('pinf')
_FL.declare('ninf')
FL = _FL.create()
_V = z3.Datatype('V')
_V.declare('none')
_V.declare('vb', ('b', z3.BoolSort()))
_V.declare('vi', ('i', z3.IntSort()))
_V.declare('vf', ('f', FL))
_V.declare('vx', ('re', FL), ('im', FL))
_V.declare('vs', ('s', z3.StringSort()))
_V.declare('vo', ('o', z3.IntSort()))
V = _V.create()
INT, BOOL, STR, REAL = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()

ALLOC_BASE = 1000000       # object ids of cells allocated during a run
KNOWN_BASE = 1000          # ids of concrete Python objects (classes, sentinels)


class Unsupported(Exception):
    """The construct is outside the verifier's reach: the obligation is undecided."""


class Infeasible(Exception):
    """The current path contradicts its assumptions."""


class PathStop(Exception):
    """Stop this path (after an explicit stop())."""


# ---------------------------------------------------------------- values
class Val(object):
    __slots__ = ()


class Sym(Val):
    """An arbitrary Python value, as a term of sort V."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Sym(%s)' % self.t


class SInt(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SFl(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SFl(%s)' % self.t


class SCx(Val):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im


class SStr(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr(%s)' % self.t


class Tup(Val):
    """A tuple of known length (optionally of a namedtuple class)."""
    __slots__ = ('items', 'cls')

    def __init__(self, items, cls=tuple):
        self.items, self.cls = tuple(items), cls

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Ref(Val):
    """Reference to a heap cell."""
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Ref(%s)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class SObj(Val):
    """A symbolic object: identity is a term; attributes come from a schema.

    cls is a real class (dispatch uses its MRO) or None when unknown."""
    __slots__ = ('cls', 'oid', 'schema')

    def __init__(self, cls, oid, schema=None):
        self.cls, self.oid, self.schema = cls, oid, schema

    def __repr__(self):
        return 'SObj(%s,%s)' % (getattr(self.cls, '__name__', None), self.oid)


class Func(Val):
    """A function or lambda created by interpreted code."""
    __slots__ = ('node', 'env', 'glob', 'name', 'defaults', 'kwdefaults', 'defcls', 'attrs')

    def __init__(self, node, env, glob, name, defaults, kwdefaults, defcls=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults, self.defcls = defaults, kwdefaults, defcls
        self.attrs = {}


class BMeth(Val):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class NMeth(Val):
    """Method of a builtin type bound to an engine value (modelled by name)."""
    __slots__ = ('self', 'name')

    def __init__(self, self_, name):
        self.self, self.name = self_, name


class UMeth(Val):
    """Unbound builtin-type method, e.g. list.append looked up on the class."""
    __slots__ = ('cls', 'name')

    def __init__(self, cls, name):
        self.cls, self.name = cls, name


class SuperV(Val):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PropObj(Val):
    """A `property` object built by interpreted code."""
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset, fdel):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class GenV(Val):
    """An unevaluated generator expression."""
    __slots__ = ('node', 'env', 'glob', 'first', 'frame')

    def __init__(self, node, env, glob, first, frame):
        self.node, self.env, self.glob, self.first, self.frame = node, env, glob, first, frame


class SegsV(Val):
    """An anonymous (iterator-like) sequence of segments."""
    __slots__ = ('segs',)

    def __init__(self, segs):
        self.segs = tuple(segs)


class DictView(Val):
    __slots__ = ('ref', 'kind')

    def __init__(self, ref, kind):
        self.ref, self.kind = ref, kind


class Poison(Val):
    """A loop-carried location whose value is not available yet."""
    __slots__ = ('loc',)

    def __init__(self, loc):
        self.loc = loc


class PoisonRead(Exception):
    def __init__(self, loc):
        Exception.__init__(self, str(loc))
        self.loc = loc


class LastVal(Val):
    """Value left by the last iteration of a summarised loop, resolved when read."""
    __slots__ = ('k', 'n', 'alts', 'init', 'loc')

    def __init__(self, k, n, alts, init, loc):
        self.k, self.n, self.alts, self.init, self.loc = k, n, alts, init, loc


class Opaque(Val):
    """Marker objects for modelled library callables."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


MISSING = Opaque('MISSING')
NOTHING = Opaque('NOTHING')


# ---------------------------------------------------------------- segments
class Item(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class ISeg(object):
    """For k in [0,n): the segments of the first alternative whose cond holds (in k)."""
    __slots__ = ('k', 'n', 'alts')

    def __init__(self, k, n, alts):
        self.k, self.n, self.alts = k, n, alts


class PHSeg(object):
    """Placeholder for what earlier iterations appended."""
    __slots__ = ('loc', 'k')

    def __init__(self, loc, k):
        self.loc, self.k = loc, k


class OSeg(object):
    """Opaque contents: a term (Int id) standing for an unknown number of elements."""
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


# ---------------------------------------------------------------- heap cells (immutable)
class InstCell(object):
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class SeqCell(object):
    __slots__ = ('cls', 'segs', 'attrs')

    def __init__(self, cls, segs, attrs=None):
        self.cls, self.segs, self.attrs = cls, tuple(segs), attrs or {}


class DictCell(object):
    """base: None or SymDict; writes: tuple of W / BulkW / PHW."""
    __slots__ = ('cls', 'base', 'writes', 'attrs')

    def __init__(self, cls, base=None, writes=(), attrs=None):
        self.cls, self.base, self.writes, self.attrs = cls, base, tuple(writes), attrs or {}


class W(object):
    """One dictionary write; v is MISSING for a deletion."""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k, self.v = k, v


class BulkW(object):
    __slots__ = ('k', 'n', 'alts')     # alts: [(cond, ((key,val),...))]

    def __init__(self, k, n, alts):
        self.k, self.n, self.alts = k, n, alts


class PHW(object):
    __slots__ = ('loc', 'k', 'n')

    def __init__(self, loc, k, n):
        self.loc, self.k, self.n = loc, k, n


class SetCell(object):
    __slots__ = ('cls', 'items', 'attrs')

    def __init__(self, cls, items, attrs=None):
        self.cls, self.items, self.attrs = cls, tuple(items), attrs or {}


class EnvCell(object):
    __slots__ = ('vars',)

    def __init__(self, vars):
        self.vars = vars


class SymDict(object):
    """A symbolic dictionary: membership, index and ordered keys as functions."""

    def __init__(self, eng, name, factory, strkeys=True, keyfact=None):
        self.name = name
        idx = list(eng.loop_idx)
        u = eng.uniq(name)
        self.has_f = z3.Function(u + '.has', V, BOOL)
        self.idx_f = z3.Function(u + '.idx', V, INT)
        self.key_f = z3.Function(u + '.key', INT, V)
        self.n = z3.Const(u + '.n', INT)
        self.factory = factory
        self.strkeys = strkeys
        self.keyfact = keyfact
        self.eng = eng
        if eng.loop_idx:
            raise Unsupported('symbolic dictionary created in a loop')
        eng.fact(self.n >= 0)
        j = z3.Const(u + '.j', INT)
        kj = self.key_f(j)
        body = [self.has_f(kj), self.idx_f(kj) == j]
        if strkeys:
            body.append(V.is_vs(kj))
        if keyfact is not None and keyfact(kj) is not None:
            body.append(keyfact(kj))
        eng.symdicts[u + '.key'] = self
        eng.universal([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(*body)))

    def has(self, k):
        """Membership of V-term k, with the ground facts that tie it to the index."""
        e = self.eng
        h = self.has_f(k)
        i = self.idx_f(k)
        e.fact(z3.Implies(h, z3.And(i >= 0, i < self.n, self.key_f(i) == k)))
        if self.strkeys:
            e.fact(z3.Implies(h, V.is_vs(k)))
        if self.keyfact is not None:
            f = self.keyfact(k)
            if f is not None:
                e.fact(z3.Implies(h, f))
        e.index_term(i, z3.And(h))
        return h

    def key_at(self, i):
        self.eng.index_term(i)
        return self.key_f(i)


# ---------------------------------------------------------------- python exceptions in interpreted code
class PyExc(Exception):
    def __init__(self, val):
        Exception.__init__(self, val)
        self.val = val


class BreakEx(Exception):
    def __init__(self, payload=None):
        self.payload = payload


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, val):
        self.val = val


class DecCtx(object):
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.alts = []


class Univ(object):
    """forall vars. body   (body carries its own range guards)"""
    __slots__ = ('vars', 'body')

    def __init__(self, vars, body):
        self.vars, self.body = vars, body


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


class Stats(object):
    def __init__(self):
        self.obligations = {}      # label -> dict(discharged, refuted, unknown)
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.functions = set()
        self.unsupported = []
        self.refuted = []
        self.models_used = set()
        self.libs = set()          # library functions replaced by the engine's models
        self.stands = set()        # dependencies a contract replaces by a stand-in
        self.backend = {}

    def ob(self, label):
        return self.obligations.setdefault(
            label, dict(discharged=0, refuted=0, unknown=0, tainted=0))


class Engine(object):
    """State of one path plus the exploration machinery."""

    def __init__(self, stats=None, timeout_ms=4000, deadline=None):
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.known = {}
        self.known_objs = {}
        self.loop_cache = {}
        self.loop_keep = []
        self.reset([])

    # -------------------------------------------------- state
    def reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms // 7)
        self.heap = {}
        self.next_id = 1
        self.counter = 0
        self.pc = []
        self.facts = []
        self.factset = set()
        self.loop_idx = []
        self.univs = []
        self.index_terms = []
        self.instd = set()
        self.overlay = {}
        self.lifted = {}
        self.lift_keep = []
        self.isq = {}
        self.taint = ()
        self.inputs = {}
        self.dec = DecCtx(prefix)
        self.ghost = {}
        self.stands = False
        self.carries = []
        self.symdicts = {}
        self.own_key = {}
        self.canon_k = z3.Const('canon!k', INT)
        self.deckey = None
        self.loop_outer = []
        self.loop_base = 0
        self.trace = self.alloc(SeqCell(list, ()))
        self.depth = 0

    def snapshot(self):
        return (dict(self.heap), self.next_id, self.counter, len(self.pc), len(self.facts),
                set(self.factset), list(self.loop_idx), list(self.univs), list(self.index_terms),
                set(self.instd), dict(self.overlay), dict(self.lifted), dict(self.isq),
                self.taint, dict(self.ghost), self.depth)

    def restore(self, s):
        (h, nid, self.counter, npc, nf, fs, li, un, it, ins, ov, lf, isq, _taint, gh, self.depth) = s
        self.heap, self.factset, self.loop_idx, self.univs = dict(h), set(fs), list(li), list(un)
        self.index_terms, self.instd, self.overlay = list(it), set(ins), dict(ov)
        self.lifted, self.isq, self.ghost = dict(lf), {k: list(v) for k, v in isq.items()}, dict(gh)
        self.next_id = nid
        del self.pc[npc:]
        del self.facts[nf:]

    def alloc(self, cell):
        i = self.next_id
        self.next_id += 1
        self.heap[i] = cell
        return Ref(i)

    def cell(self, ref):
        return self.heap[ref.id]

    # -------------------------------------------------- names and terms
    def uniq(self, name):
        self.counter += 1
        return '%s!%d' % (name, self.counter)

    def fresh(self, name, sort):
        u = self.uniq(name) + ':' + str(sort)[:3]
        if not self.loop_idx:
            return z3.Const(u, sort)
        f = z3.Function(u, *([INT] * len(self.loop_idx) + [sort]))
        return f(*self.loop_idx)

    # -------------------------------------------------- solver
    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')

    def sat(self, *extra):
        """'sat' | 'unsat' | 'unknown' of the current path plus extra."""
        self.check_time()
        t = time.time()
        r = str(self.solver.check(*extra))
        self.stats.queries += 1
        if r == 'unknown':
            # the incremental solver is often weaker than a fresh one
            s = z3.Solver()
            s.add(*self.solver.assertions())
            s.add(*extra)
            r, _ = second_opinion(s, 2000)
            self.stats.queries += 1
            if r == 'unknown':
                s.set('timeout', self.timeout_ms)
                r = str(s.check())
                self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def add(self, f):
        self.solver.add(f)

    def fact(self, f):
        """A truth of the model (not a branch condition)."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        key = f.get_id()
        if key in self.factset:
            return
        self.factset.add(key)
        self.facts.append(f)
        self.solver.add(f)

    def assume(self, f):
        f = z3.simplify(f) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return
        self.pc.append(f)
        self.solver.add(f)
        if z3.is_false(f):
            raise Infeasible()

    # -------------------------------------------------- branching
    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ctx = self.dec
        if ctx.pos < len(ctx.prefix):
            d = ctx.prefix[ctx.pos]
        else:
            if self.sat(cond) == 'unsat':
                d = False
            elif self.sat(z3.Not(cond)) == 'unsat':
                d = True
            else:
                d = True
                ctx.alts.append(ctx.prefix + [False])
            ctx.prefix.append(d)
        ctx.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n, name='choice'):
        """Unconstrained choice among n alternatives."""
        if n <= 1:
            return 0
        if self.loop_idx:
            tag = self.fresh(name, INT)
            for i in range(n - 1):
                if self.branch(tag == i):
                    return i
            return n - 1
        ctx = self.dec
        if ctx.pos < len(ctx.prefix):
            d = ctx.prefix[ctx.pos]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                ctx.alts.append(ctx.prefix + [j])
            ctx.prefix.append(d)
        ctx.pos += 1
        return d

    # -------------------------------------------------- universal facts
    def index_term(self, t, guard=None):
        t = z3.simplify(t)
        for o in self.index_terms:
            if o.eq(t):
                return
        self.index_terms.append(t)
        for u in list(self.univs):
            self._inst(u, t)

    def _inst(self, u, must=None):
        def rec(i, sub):
            if i == len(u.vars):
                if must is not None and not any(x.eq(must) for x in sub):
                    return
                key = (id(u), tuple(x.get_id() for x in sub))
                if key in self.instd:
                    return
                self.instd.add(key)
                self.fact(z3.substitute(u.body, *zip(u.vars, sub)))
                return
            for t in self.index_terms:
                rec(i + 1, sub + [t])
        rec(0, [])

    def universal(self, vars, body):
        body = z3.simplify(body)
        if z3.is_true(body):
            return
        u = Univ(list(vars), body)
        self.univs.append(u)
        self._inst(u)

    def quantified(self):
        out = []
        for u in self.univs:
            vs = [z3.Const('q%d!%s' % (i, id(u)), INT) for i in range(len(u.vars))]
            out.append(z3.ForAll(vs, z3.substitute(u.body, *zip(u.vars, vs))))
        return out

    # -------------------------------------------------- obligations
    def oblige(self, cond, label):
        ob = self.stats.ob(label)
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            ob['discharged'] += 1
            return True
        self.check_time()
        t0 = time.time()
        s = self.solver
        s.push()
        s.add(z3.Not(cond))
        s.set('timeout', max(self.timeout_ms, 6000))
        r = str(s.check())
        self.stats.queries += 1
        backend = 'z3'
        model = None
        if r == 'sat':
            model = s.model()
            if self.univs:
                s.push()
                for q in self.quantified():
                    s.add(q)
                s.set('timeout', 3000)
                r2 = str(s.check())
                if r2 == 'sat':
                    model = s.model()
                elif r2 == 'unsat':
                    r = 'unsat'
                else:
                    r = 'sat?'
                s.pop()
        elif r == 'unknown':
            r, backend = second_opinion(s)
            if r == 'sat':
                r = 'unknown'       # no model to replay
        s.pop()
        s.set('timeout', self.timeout_ms // 7)
        self.stats.solver_s += time.time() - t0
        if r == 'unsat':
            ob['discharged'] += 1
            self.stats.backend[backend] = self.stats.backend.get(backend, 0) + 1
            self.solver.add(cond)
            return True
        if r in ('sat', 'sat?'):
            if not self.taint and mentions_text([cond] + list(self.pc)):
                self.taint += ('formatted text',)
            exact = r == 'sat' and not self.taint
            ob['refuted' if exact else 'tainted'] += 1
            self.stats.refuted.append(dict(
                label=label, exact=exact, taint=sorted(set(self.taint)),
                goal=str(cond)[:2000], path=[str(c)[:300] for c in self.pc[-40:]],
                inputs=self.model_inputs(model), quant=r))
        else:
            ob['unknown'] += 1
        if self.sat(cond) == 'unsat':
            raise PathStop()
        self.assume(cond)
        return False

    def model_inputs(self, model):
        if model is None:
            return {}
        out = {}
        for name, t in self.inputs.items():
            if not z3.is_expr(t):
                out[name] = {'choice': t}
                continue
            try:
                out[name] = {'term': str(model.eval(t, model_completion=True))[:400],
                             'py': to_py(model.eval(t, model_completion=True))}
            except Exception:      # model evaluation is best effort
                pass
        return out


def mentions_text(ts):
    """Does any of the terms depend on text whose formatting is not modelled?"""
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if not z3.is_expr(t) or t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('str_'):
            return True
        todo.extend(t.children())
    return False


def to_py(t):
    """Model value -> JSON-able python description, or None."""
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return {'int': t.as_long()}
    if z3.is_true(t) or z3.is_false(t):
        return {'bool': z3.is_true(t)}
    if z3.is_string_value(t):
        return {'str': t.as_string().encode('latin1', 'ignore').decode('unicode_escape', 'ignore')
                if '\\u' in t.as_string() else t.as_string()}
    if t.sort() == FL:
        n = t.decl().name()
        if n == 'fin':
            r = t.arg(0)
            return {'float': str(r.as_fraction()) if z3.is_rational_value(r) else '0'}
        return {'float': {'nan': 'nan', 'pinf': 'inf', 'ninf': '-inf'}[n]}
    if t.sort() == V:
        n = t.decl().name()
        if n == 'none':
            return {'none': 1}
        if n == 'vo':
            return {'obj': t.arg(0).as_long() if z3.is_int_value(t.arg(0)) else 0}
        if n == 'vx':
            return {'complex': [to_py(t.arg(0)), to_py(t.arg(1))]}
        return to_py(t.arg(0))
    return None


def second_opinion(s, limit=6000):
    """cvc5 on the goals z3 answered unknown."""
    try:
        import cvc5
        text = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        sol = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        sol.setOption('tlimit-per', str(limit))
        sol.setOption('strings-exp', 'true')
        p = cvc5.InputParser(sol)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(sol, sm)
            if 'sat' in out or 'unknown' in out:
                res = out.strip()
        if res in ('unsat', 'sat'):
            return res, 'cvc5'
        return 'unknown', 'cvc5'
    except Exception:
        return 'unknown', 'none'
