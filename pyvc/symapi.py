"""Symbolic meaning of the contract intrinsics."""
import z3
from .core import *          # noqa
from .core import V, FL
from .interp import subst, subst_segs, is_native
from . import api


def _name(e, name):
    names = dict(e.ghost.get('names', {}))
    n = names.get(name, 0)
    names[name] = n + 1
    e.ghost['names'] = names
    return name if n == 0 else '%s#%d' % (name, n)


def _reg(e, name, t):
    if not e.loop_idx:
        e.inputs[name] = t


def external(e, t):
    """Values from outside are not the objects the code under proof allocates later."""
    o = V.o(t)
    e.fact(z3.Implies(V.is_vo(t), z3.Or(o < ALLOC_BASE, o >= 2000000000)))


def s_check(e, a, kw):
    t = e.truth_term(a[0])
    e.oblige(t, e.force(a[1]))
    return None


def s_fail(e, a, kw):
    e.oblige(False, e.force(a[0]))
    raise PathStop()


def s_assume(e, a, kw):
    t = e.truth_term(a[0])
    e.assume(t)
    if e.sat() == 'unsat':
        raise Infeasible()


def s_cover(e, a, kw):
    lab = e.force(a[0])
    if lab not in e.stats.covers and e.sat() == 'sat':
        e.stats.covers.add(lab)


def s_symbolic(e, a, kw):
    return True


def s_any_int(e, a, kw):
    n = _name(e, e.force(a[0]))
    t = e.fresh(n, INT)
    _reg(e, n, t)
    return SInt(t)


def s_any_bool(e, a, kw):
    n = _name(e, e.force(a[0]))
    t = e.fresh(n, BOOL)
    _reg(e, n, t)
    return SBool(t)


def s_any_float(e, a, kw):
    n = _name(e, e.force(a[0]))
    t = e.fresh(n, FL)
    _reg(e, n, t)
    return SFl(t)


def s_any_str(e, a, kw):
    n = _name(e, e.force(a[0]))
    t = e.fresh(n, STR)
    _reg(e, n, t)
    return SStr(t)


def s_any_value(e, a, kw):
    n = _name(e, e.force(a[0]))
    t = e.fresh(n, V)
    _reg(e, n, t)
    external(e, t)
    return Sym(t)


def s_choose(e, a, kw):
    n = _name(e, e.force(a[0]))
    opts = e.narrow(a[1])
    items = list(opts.items) if isinstance(opts, Tup) else [s.v for s in e.cell(opts).segs]
    i = e.choose(len(items), n)
    _reg(e, n, i)
    return items[i]


def _uf(kind, sort, data=False):
    def f(e, a, kw):
        name = e.force(a[0])
        ts = [e.enc(x) for x in a[1:]]
        fn = z3.Function('uf%s!%s!%d' % (kind, name, len(ts)), *([V] * len(ts) + [sort])) if ts else None
        t = fn(*ts) if ts else z3.Const('uf%s!%s' % (kind, name), sort)
        if kind == 'b':
            return SBool(t)
        if kind == 'i':
            return SInt(t)
        if kind == 's':
            return SStr(t)
        if kind == 'f':
            return SFl(t)
        if kind == 'v':
            external(e, t)
            if data:
                e.fact(z3.Implies(V.is_vo(t), z3.Not(z3.Function('callable', INT, BOOL)(V.o(t)))))
            return Sym(t)
        # exceptions
        e.fact(z3.And(t > 3000, t < ALLOC_BASE))
        return e.opaque_exc(t, Exception)
    return f


def s_same(e, a, kw):
    return same(e, a[0], a[1])


def same(e, x, y):
    x, y = e.force(x), e.force(y)
    if isinstance(x, Sym):
        x = e.dec_term(x.t)
    if isinstance(y, Sym):
        y = e.dec_term(y.t)
    if isinstance(x, Tup) and isinstance(y, Tup):
        if len(x.items) != len(y.items):
            return False
        for p, q in zip(x.items, y.items):
            if not e.truth(same(e, p, q)):
                return False
        return True
    if isinstance(x, BMeth) and isinstance(y, BMeth):
        if isinstance(x.func, type(y.func)) and x.func is y.func:
            return same(e, x.self, y.self)
        return False
    if isinstance(x, Tup) or isinstance(y, Tup):
        return e.bval(e.enc(x) == e.enc(y))
    return e.is_(x, y)


def segs_of(e, v):
    v = e.narrow(v)
    if isinstance(v, Tup):
        return tuple(Item(x) for x in v.items)
    return tuple(e.iter_segs(v))


def s_same_seq(e, a, kw):
    return same_segs(e, segs_of(e, a[0]), segs_of(e, a[1]))


def flat(segs):
    out = []
    for s in segs:
        if isinstance(s, ISeg):
            n = z3.simplify(s.n)
            if z3.is_int_value(n) and n.as_long() <= 0:
                continue
        out.append(s)
    return out


def same_segs(e, x, y):
    """Equality of two segmented sequences, by aligning their segments (branches)."""
    x, y = flat(x), flat(y)
    while x or y:
        if x and y:
            p, q = x[0], y[0]
            if isinstance(p, Item) and isinstance(q, Item):
                if not e.truth(same(e, p.v, q.v)):
                    return False
                x, y = x[1:], y[1:]
                continue
            if isinstance(p, OSeg) and isinstance(q, OSeg):
                if not e.branch(p.oid == q.oid):
                    e.taint += ('opaque sequences compared',)
                    return False
                x, y = x[1:], y[1:]
                continue
            if isinstance(p, ISeg) and isinstance(q, ISeg):
                if same_iseg(e, p, q):
                    x, y = x[1:], y[1:]
                    continue
                e.taint += ('sequence alignment',)
                return False
        # one side may be empty
        p = (x or y)[0]
        if isinstance(p, Item) and not (x and y):
            return False
        rest = x if x and isinstance(x[0], (ISeg, OSeg)) else y
        if rest and isinstance(rest[0], (ISeg, OSeg)):
            if not e.segs_nonempty((rest[0],)):
                if rest is x:
                    x = x[1:]
                else:
                    y = y[1:]
                continue
            if not (x and y):
                return False
        e.taint += ('sequence alignment',)
        return False
    return True


def same_iseg(e, p, q):
    if not e.branch(p.n == q.n):
        return False
    j = e.fresh('j', INT)
    outer = list(e.loop_idx)
    ok = []
    # every index contributes the same segments
    goal = seg_goal(e, p, q, j)
    if goal is None:
        raise Unsupported('alignment of nested segments')
    pc = z3.And(j >= 0, j < p.n)
    e.index_term(j)
    return e.truth(SBool(_forall_hint(e, j, z3.Implies(pc, goal))))


def _forall_hint(e, j, body):
    """Truth of (forall j. body): decided here as an obligation-like query.

    Returns a literal: true when provable, otherwise a fresh boolean that implies nothing."""
    e.solver.push()
    e.solver.add(z3.Not(body))
    r = str(e.solver.check())
    e.stats.queries += 1
    e.solver.pop()
    if r == 'unsat':
        return z3.BoolVal(True)
    if r == 'sat' and not e.univs:
        return z3.BoolVal(False)
    e.taint += ('index %s' % r,)
    return z3.BoolVal(False)


def seg_goal(e, p, q, j):
    """Term: at index j both segments contribute the same elements."""
    out = []
    pa = [(z3.substitute(c, (p.k, j)), subst_segs(g, [(p.k, j)], e)) for c, g in p.alts]
    qa = [(z3.substitute(c, (q.k, j)), subst_segs(g, [(q.k, j)], e)) for c, g in q.alts]
    for c, g in pa:
        for d, h in qa:
            t = items_term(e, g, h)
            if t is None:
                t = z3.BoolVal(False)       # the two alternatives must exclude each other
            out.append(z3.Implies(z3.And(c, d), t))
    return conj(out)


def items_term(e, g, h):
    if len(g) != len(h):
        if all(isinstance(s, Item) for s in tuple(g) + tuple(h)):
            return z3.BoolVal(False)
        return None
    ts = []
    for a, b in zip(g, h):
        if isinstance(a, Item) and isinstance(b, Item):
            t = same_term(e, a.v, b.v)
            if t is None:
                return None
            ts.append(t)
        elif isinstance(a, OSeg) and isinstance(b, OSeg):
            ts.append(a.oid == b.oid)
        elif isinstance(a, ISeg) and isinstance(b, ISeg):
            if not (len(a.alts) == 1 and len(b.alts) == 1):
                return None
            jj = e.fresh('jj', INT)
            t = seg_goal(e, a, b, jj)
            if t is None:
                return None
            ts.append(z3.And(a.n == b.n, z3.Implies(z3.And(jj >= 0, jj < a.n), t)))
        else:
            return None
    return conj(ts)


def same_term(e, a, b):
    a, b = e.force(a), e.force(b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        ts = [same_term(e, x, y) for x, y in zip(a.items, b.items)]
        return None if any(t is None for t in ts) else conj(ts)
    if isinstance(a, BMeth) and isinstance(b, BMeth):
        if a.func is b.func:
            return same_term(e, a.self, b.self)
        return z3.BoolVal(False)
    if isinstance(a, (BMeth, Func, GenV)) or isinstance(b, (BMeth, Func, GenV)):
        return z3.BoolVal(a is b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return z3.BoolVal(True)
        ca, cb = e.cell(a), e.cell(b)
        return z3.BoolVal(False)
    return e.enc(a) == e.enc(b)


def string_keyed(c):
    for w in c.writes:
        if isinstance(w, W):
            ks = [w.k]
        elif isinstance(w, BulkW):
            ks = [k for _, items in w.alts for k, _ in items]
        else:
            return False
        if not all(isinstance(k, (str, SStr)) for k in ks):
            return False
    return True


def s_same_dict(e, a, kw):
    x, y = e.narrow(a[0]), e.narrow(a[1])
    t = e.fresh('anykey', V)
    if not e.loop_idx:
        e.inputs['(key)'] = t
    k = Sym(t)
    if all(string_keyed(e.cell(d)) for d in (x, y)):
        e.assume(V.is_vs(t))
        k = SStr(V.s(t))
    p = e.dict_get(e.cell(x), k)
    q = e.dict_get(e.cell(y), k)
    if p is MISSING or q is MISSING:
        return p is q
    return same(e, p, q)


def s_cardinality(e, a, kw):
    x, y = e.cell(e.narrow(a[0])).base, e.cell(e.narrow(a[1])).base
    if x is None or y is None or e.cell(a[0]).writes or e.cell(a[1]).writes:
        raise Unsupported('cardinality of a dictionary that was written')
    t = e.fresh('differs', V)
    e.fact(z3.Or(x.n == y.n, x.has(t) != y.has(t)))


def s_mkseq(e, a, kw):
    n = _name(e, e.force(a[0]))
    lo = a[2] if len(a) > 2 else kw.get('lo', 0)
    t = e.fresh(n, INT)
    _reg(e, n, t)
    e.fact(t >= e.as_num(lo)[1])
    out = e.alloc(SeqCell(list, ()))
    k = z3.Const(e.uniq('mk'), INT)

    def body(v):
        e.seq_append(out, e.call(a[1], [v], {}))
    e.iter_over((ISeg(k, t, [(z3.BoolVal(True), (Item(SInt(k)),))]),), body)
    return out


def s_mkdict(e, a, kw):
    n = _name(e, e.force(a[0]))
    fn = a[1]
    sd = SymDict(e, n, lambda t: e.call(fn, [SStr(z3.simplify(V.s(t)))], {}))
    _reg(e, n, sd.n)
    return e.alloc(DictCell(dict, sd))


def s_any_key(e, a, kw):
    v = s_any_str(e, a[:1], kw)
    s_assume(e, [e.contains(a[1], v)], {})
    return v


def s_abstract(e, a, kw):
    cls = e.force(a[0])
    kind = cls.__name__ + ' ' + e.force(a[1])
    args = e.narrow(a[2]) if len(a) > 2 else kw.get('args', Tup([]))
    fields = a[3] if len(a) > 3 else kw.get('fields')
    ts = [e.enc(x) for x in args.items]
    fname = 'abs!' + kind
    if ts:
        o = z3.Function(fname, *([V] * len(ts) + [INT]))(*ts)
    else:
        o = z3.Const(fname, INT)

    def schema(eng, obj, name):
        if fields is None:
            return MISSING
        d = eng.call(fields, [eng.dec_term(c) for c in obj.oid.children()], {})
        for w in eng.cell(d).writes:
            if w.k == name:
                return w.v
        return MISSING

    def mk(o):
        facts_of(o)
        return SObj(cls, o, schema)

    def facts_of(o):
        e.fact(z3.And(o > 3000, o < ALLOC_BASE))
        e.fact(z3.Function('abskind', INT, STR)(o) == z3.StringVal(kind))
        for i, t in enumerate(o.children()):
            e.fact(z3.Function('absarg%d' % i, INT, V)(o) == t)
    e.ghost[('ctor', fname)] = mk
    return mk(z3.simplify(o))


def s_abs_class(e, a, kw):
    base, props = e.force(a[0]), a[1]
    if (base, '_props') in e.overlay:
        raise Unsupported('abs_class used twice with %s' % base.__name__)
    e.overlay[(base, '_props')] = props
    c = e.cell(props) if isinstance(props, Ref) else None
    if c is not None and c.base is None:
        for w in c.writes:
            if isinstance(w.k, str):
                e.overlay[(base, w.k)] = e.call(e.getattr_(w.v, 'get_property'), [], {})
    for k, v in kw.items():
        e.overlay[(base, k)] = v
    return base


def s_new_instance(e, a, kw):
    kw = dict(kw)
    for n in ('_backend', '_listeners'):
        if n not in kw:
            kw[n] = e.alloc(DictCell(dict))
    return e.alloc(InstCell(e.force(a[0]), kw))


def s_stand_in(e, a, kw):
    real, stub = a
    e.stands = True
    e.stats.stands.add('%s.%s' % (getattr(real, '__module__', None), getattr(real, '__qualname__', real)))
    e.ghost[('stand', id(real))] = stub


def s_log(e, a, kw):
    e.seq_append(e.trace, Tup(a))


def s_trace(e, a, kw):
    return e.alloc(SeqCell(list, e.cell(e.trace).segs))


def s_clear_trace(e, a, kw):
    if e.loop_idx:
        raise Unsupported('clear_trace in a loop')
    e.heap[e.trace.id] = SeqCell(list, ())


def s_snapshot(e, a, kw):
    v = e.narrow(a[0])
    if isinstance(v, Tup):
        return e.alloc(SeqCell(list, [Item(x) for x in v.items]))
    c = e.cell(v)
    if isinstance(c, SeqCell):
        return e.alloc(SeqCell(list, c.segs))
    if isinstance(c, SetCell):
        return e.alloc(SetCell(set, c.items))
    return e.alloc(DictCell(dict, c.base, c.writes))


def _no(name):
    def f(e, a, kw):
        raise Unsupported('native-only intrinsic %s' % name)
    return f


def install(e):
    I = e.intr
    I[api.check] = s_check
    I[api.fail] = s_fail
    I[api.assume] = s_assume
    I[api.cover] = s_cover
    I[api.symbolic] = s_symbolic
    I[api.any_int] = s_any_int
    I[api.any_bool] = s_any_bool
    I[api.any_float] = s_any_float
    I[api.any_str] = s_any_str
    I[api.any_value] = s_any_value
    I[api.fresh_value] = s_any_value
    I[api.choose] = s_choose
    I[api.uf_bool] = I[api.uf_rare] = _uf('b', BOOL)
    I[api.uf_int] = _uf('i', INT)
    I[api.uf_small] = _uf('i', INT)
    I[api.uf_float] = _uf('f', FL)
    I[api.uf_value] = _uf('v', V)
    I[api.uf_data] = _uf('v', V, True)
    I[api.uf_str] = _uf('s', STR)
    I[api.uf_exc] = _uf('e', INT)
    I[api.same] = s_same
    I[api.same_seq] = s_same_seq
    I[api.same_dict] = s_same_dict
    I[api.cardinality] = s_cardinality
    I[api.mkseq] = s_mkseq
    I[api.mkdict] = s_mkdict
    I[api.any_key] = s_any_key
    I[api.any_name] = lambda e, a, kw: s_any_str(e, a[:1], kw)
    I[api.abstract] = s_abstract
    I[api.abs_class] = s_abs_class
    I[api.new_instance] = s_new_instance
    I[api.stand_in] = s_stand_in
    I[api.log] = s_log
    I[api.trace] = s_trace
    I[api.clear_trace] = s_clear_trace
    I[api.snapshot] = s_snapshot
    I[api.rng] = _no('rng')
    I[api.note] = _no('note')
