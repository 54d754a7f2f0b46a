"""Loops over sequences of unbounded length.

A loop over n elements is verified by exploring its body once, for an
arbitrary index k, with everything earlier iterations may have changed
replaced by placeholders (found to a fixpoint).  The result is a summary: the
finishing iterations as path conditions over k, and the exits (break, return,
raise) as witnesses.  No bound on n is involved."""
import z3
from .core import *          # noqa
from .core import V, FL
from .interp import subst, subst_segs, is_native, SCALARS

KEEP = Opaque('KEEP')


class NeedLift(Exception):
    def __init__(self, obj):
        self.obj = obj


class PathRes(object):
    pass


class Mode(object):
    def __init__(self, kind, init=None):
        self.kind = kind        # poison | carried | append
        self.init = init
        self.sort = None
        self.fn = None
        self.closed = None
        self.inv = None


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, Val) != isinstance(b, Val):
        return False
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, (Sym, SInt, SBool, SStr, SFl)) and type(a) is type(b):
        return a.t.eq(b.t)
    if isinstance(a, BMeth) and isinstance(b, BMeth):
        return same_val(a.func, b.func) and same_val(a.self, b.self)
    if not isinstance(a, Val) and isinstance(a, SCALARS):
        return type(a) is type(b) and a == b
    return False


class Loops(object):

    def lift_guard(self, o):
        if self.loop_idx:
            raise NeedLift(o)

    def summarise(self, seg, body):
        n = z3.simplify(seg.n)
        if z3.is_int_value(n) and n.as_long() <= 6 and not self.loop_idx:
            for i in range(max(n.as_long(), 0)):
                self.run_alt(seg, z3.IntVal(i), body)
            return
        if self.branch(n <= 0):
            return
        ck = (self.deckey, tuple(self.dec.prefix[:self.dec.pos]), self.counter)
        res = self.loop_cache.get(ck)
        if res is None:
            while True:
                try:
                    res = self.explore_loop(seg, n, body)
                    break
                except NeedLift as e:
                    if self.loop_idx:
                        raise
                    self.lift(e.obj)
            ck2 = ck if ck[2] == self.counter else (ck[0], ck[1], self.counter)
            self.loop_cache[ck] = res
            self.loop_keep.append(ck2)
        self.apply_loop(n, *res)

    def run_alt(self, seg, i, body):
        pairs = [(seg.k, i)]
        alts = seg.alts
        for c, g in alts[:-1]:
            if self.branch(z3.substitute(c, *pairs)):
                self.iter_over(subst_segs(g, pairs, self), body)
                return
        if alts:
            c, g = alts[-1]
            self.assume(z3.substitute(c, *pairs))
            self.iter_over(subst_segs(g, pairs, self), body)

    # ---------------------------------------------------------------- exploration
    def explore_loop(self, seg, n, body):
        k = self.fresh('k', INT)
        mods = {}
        saved_stats = None
        for attempt in range(14):
            saved = self.save_obs()
            restart = None
            try:
                paths = self.loop_paths(seg, n, k, body, mods)
            except PoisonRead as e:
                restart = e.loc
            if restart is not None:
                self.load_obs(saved)
                self.upgrade(restart, mods)
                continue
            if self.detect(paths, mods, k):
                self.load_obs(saved)
                continue
            return (k, mods, paths)
        raise Unsupported('loop summary did not stabilise')

    def save_obs(self):
        s = self.stats
        return ({a: dict(b) for a, b in s.obligations.items()}, len(s.refuted), dict(s.backend))

    def load_obs(self, sv):
        s = self.stats
        s.obligations = sv[0]
        del s.refuted[sv[1]:]
        s.backend = sv[2]

    def upgrade(self, loc, mods):
        m = mods.get(loc)
        if m is None or m.kind != 'poison' or loc[0] not in ('env', 'attr', 'ov'):
            raise Unsupported('loop-carried read of %s' % (loc[0],))
        if m.init is MISSING:
            raise Unsupported('loop-carried variable without initial value')
        m.kind = 'carried'
        m.sort = self.carry_sort(m.init)
        m.fn = self.carry_fn(m.sort)

    def carry_sort(self, v):
        if isinstance(v, (bool, SBool)):
            return BOOL
        if isinstance(v, (int, SInt)):
            return INT
        if isinstance(v, (str, SStr)):
            return STR
        return V

    def carry_fn(self, sort):
        u = self.uniq('carry')
        return z3.Function(u, *([INT] * (len(self.loop_idx) + 1) + [sort]))

    def carry_term(self, v, sort):
        v = self.force(v)
        if sort is V:
            if isinstance(v, Ref) and v.id >= self.loop_base:
                raise Unsupported('loop-carried reference to a new object')
            return self.enc(v)
        if sort is BOOL:
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if isinstance(v, SBool):
                return v.t
        if sort is INT:
            if isinstance(v, SInt):
                return v.t
            if isinstance(v, int) and not isinstance(v, bool):
                return z3.IntVal(v)
        if sort is STR and isinstance(v, (str, SStr)):
            return self.strt(v)
        return None

    def carry_val(self, m, idx):
        if m.closed is not None:
            t = z3.simplify(m.closed[0] + m.closed[1] * idx)
            return self.ival(t)
        t = m.fn(*(list(self.loop_outer) + [idx]))
        if m.sort is BOOL:
            return SBool(t)
        if m.sort is INT:
            return SInt(t)
        if m.sort is STR:
            return SStr(t)
        return Sym(t)

    def loop_paths(self, seg, n, k, body, mods):
        base = self.snapshot()
        outer_dec = self.dec
        outer_key = self.deckey
        base_next = self.next_id
        outer = list(self.loop_idx)
        maxc, maxid = self.counter, self.next_id
        old_outer = getattr(self, 'loop_outer', [])
        old_base = getattr(self, 'loop_base', 0)
        work = [[]]
        res = []
        npaths = 0
        try:
            while work:
                prefix = work.pop()
                npaths += 1
                if npaths > 400:
                    raise Unsupported('too many paths in a loop body')
                self.restore(base)
                self.solver.push()
                self.dec = DecCtx(prefix)
                self.deckey = (outer_key, tuple(outer_dec.prefix[:outer_dec.pos]), base[2])
                self.loop_idx = outer + [k]
                self.loop_outer = outer
                self.loop_base = base_next
                taint0 = self.taint
                self.taint = ()
                r = PathRes()
                r.out, r.val = 'normal', None
                try:
                    self.assume(k >= 0)
                    self.assume(k < n)
                    self.index_term(k)
                    for loc, m in mods.items():
                        self.install(loc, m, k, n)
                    r.start_heap = dict(self.heap)
                    r.start_overlay = dict(self.overlay)
                    npc, nf, nu = len(self.pc), len(self.facts), len(self.univs)
                    npc0, nf0 = base[3], base[4]
                    try:
                        self.run_alt(seg, k, body)
                    except BreakEx as e:
                        r.out, r.val = 'break', e
                    except ContinueEx:
                        pass
                    except ReturnEx as e:
                        r.out, r.val = 'return', e
                    except PyExc as e:
                        r.out, r.val = 'raise', e
                    r.pc = list(self.pc[npc0:])
                    r.facts = list(self.facts[nf0:])
                    r.univs = list(self.univs[len(base[7]):])
                    r.idx = list(self.index_terms[len(base[8]):])
                    r.heap, r.overlay, r.ghost = dict(self.heap), dict(self.overlay), dict(self.ghost)
                    r.lifted, r.isq = dict(self.lifted), dict(self.isq)
                    r.taint = self.taint
                    res.append(r)
                except (Infeasible, PathStop):
                    pass
                finally:
                    maxc, maxid = max(maxc, self.counter), max(maxid, self.next_id)
                    self.taint = taint0
                    self.solver.pop()
                work.extend(self.dec.alts)
        finally:
            self.dec = outer_dec
            self.deckey = outer_key
            self.restore(base)
            self.loop_outer, self.loop_base = old_outer, old_base
            self.counter = maxc
            self.next_id = maxid
        for r in res:
            r.base_next = base_next
            r.maxc, r.maxid = maxc, maxid
        return res

    def install(self, loc, m, k, n):
        kind = loc[0]
        if kind in ('env', 'attr', 'ov'):
            v = Poison(loc) if m.kind == 'poison' else self.carry_val(m, k)
            if m.inv:
                self.fact(self.excish_fact(v.t, m.inv))
            self.write_loc(loc, v)
        elif kind == 'seq':
            c = self.heap[loc[1]]
            self.heap[loc[1]] = SeqCell(c.cls, c.segs + (PHSeg(loc, k),), c.attrs)
        elif kind == 'dict':
            c = self.heap[loc[1]]
            self.heap[loc[1]] = DictCell(c.cls, c.base, c.writes + (PHW(loc, k, n),), c.attrs)

    def write_loc(self, loc, v):
        kind = loc[0]
        if kind == 'env':
            vs = dict(self.heap[loc[1]].vars)
            if v is MISSING:
                vs.pop(loc[2], None)
            else:
                vs[loc[2]] = v
            self.heap[loc[1]] = EnvCell(vs)
        elif kind == 'attr':
            c = self.heap[loc[1]]
            a = dict(c.attrs)
            if v is MISSING:
                a.pop(loc[2], None)
            else:
                a[loc[2]] = v
            self.heap[loc[1]] = self.with_attrs(c, a)
        else:
            if v is MISSING:
                self.overlay.pop(loc[1], None)
            else:
                self.overlay[loc[1]] = v

    def read_loc(self, loc, heap, overlay):
        if loc[0] == 'env':
            return heap[loc[1]].vars.get(loc[2], MISSING)
        if loc[0] == 'attr':
            return heap[loc[1]].attrs.get(loc[2], MISSING)
        return overlay.get(loc[1], MISSING)

    def detect(self, paths, mods, k):
        """Find locations changed by finishing iterations; True if anything is new."""
        new = False

        def add(loc, kind, init):
            nonlocal new
            if loc not in mods:
                mods[loc] = Mode(kind, init)
                new = True
        for r in paths:
            if r.out != 'normal':
                continue
            for i, c in r.start_heap.items():
                if i >= r.base_next:
                    continue
                d = r.heap[i]
                if c is d:
                    continue
                if isinstance(c, EnvCell):
                    for nm in set(c.vars) | set(d.vars):
                        if not same_val(c.vars.get(nm, MISSING), d.vars.get(nm, MISSING)):
                            add(('env', i, nm), 'poison', c.vars.get(nm, MISSING))
                    continue
                for nm in set(c.attrs) | set(d.attrs):
                    if not same_val(c.attrs.get(nm, MISSING), d.attrs.get(nm, MISSING)):
                        add(('attr', i, nm), 'poison', c.attrs.get(nm, MISSING))
                if isinstance(c, SeqCell) and tuple(c.segs) != tuple(d.segs):
                    add(('seq', i), 'append', None)
                    if tuple(d.segs[:len(c.segs)]) != tuple(c.segs):
                        raise Unsupported('sequence changed other than by appending in a loop')
                if isinstance(c, DictCell) and (c.writes != d.writes or c.base is not d.base):
                    add(('dict', i), 'append', None)
                    if tuple(d.writes[:len(c.writes)]) != tuple(c.writes) or c.base is not d.base:
                        raise Unsupported('dictionary changed other than by writes in a loop')
                    sd = self.own_key.get((('dict', i), k.decl().name()))
                    if sd is not None:
                        for w in d.writes[len(c.writes):]:
                            if not isinstance(w, W) or self.symkey(w.k) is None or \
                                    self.symkey(w.k)[0] is not sd or not self.symkey(w.k)[1].eq(k):
                                raise Unsupported('loop-carried read of dict')
                if isinstance(c, SetCell) and c.items != d.items:
                    raise Unsupported('set changed in a loop')
            for key in set(r.start_overlay) | set(r.overlay):
                if not same_val(r.start_overlay.get(key, MISSING), r.overlay.get(key, MISSING)):
                    add(('ov', key), 'poison', r.start_overlay.get(key, MISSING))
            for gk, gv in r.ghost.items():
                if isinstance(gk, tuple) and gk[0] == 'sattr' and \
                        not same_val(self.ghost.get(gk, MISSING), gv):
                    raise Unsupported('attribute of a symbolic object changed in a loop')
        if new:
            return True
        # carried values: None or an exception throughout?
        for loc, m in mods.items():
            if m.kind == 'carried' and m.sort is V and m.inv is None:
                cur = m.fn(*(list(self.loop_idx) + [k]))
                m.inv = False
                if self.excish(m.init, cur) and all(self.excish(self.read_loc(loc, r.heap, r.overlay), cur)
                                                    for r in paths if r.out == 'normal'):
                    m.inv = BaseException
                    if self.inv_holds(loc, m, paths, cur, Exception):
                        m.inv = Exception
                    return True
        # carried values: right sort? closed form?
        for loc, m in mods.items():
            if m.kind != 'carried' or m.closed is not None:
                continue
            steps = []
            for r in paths:
                if r.out != 'normal':
                    continue
                v = self.read_loc(loc, r.heap, r.overlay)
                t = self.carry_of(v, m, r)
                if t is None:
                    m.sort = V
                    m.fn = self.carry_fn(V)
                    return True
                steps.append(t)
            if m.sort is INT:
                cur = m.fn(*(list(self.loop_idx) + [k]))
                ds = [z3.simplify(t - cur) for t in steps]
                if ds and all(z3.is_int_value(d) and d.eq(ds[0]) for d in ds):
                    m.closed = (self.carry_term(m.init, INT), ds[0])
                    return True
        return False

    def excish(self, v, cur):
        if v is None or isinstance(v, SObj) and v.schema == 'exc':
            return True
        if isinstance(v, (Sym, SObj)):
            t = z3.simplify(self.enc(v))
            return t.eq(z3.simplify(cur)) or t.eq(z3.simplify(V.vo(V.o(cur))))
        return False

    def excish_fact(self, t, base):
        return z3.Or(V.is_none(t), z3.And(V.is_vo(t), self.isinst_pred(V.o(t), base)))

    def inv_holds(self, loc, m, paths, cur, base):
        """Initially and after each finishing iteration: None or an instance of base."""
        if m.init is not None:
            return False
        for r in paths:
            if r.out != 'normal':
                continue
            v = self.read_loc(loc, r.heap, r.overlay)
            if v is None:
                continue
            s = z3.Solver()
            s.set('timeout', 1000)
            s.add(*r.pc)
            s.add(*r.facts)
            s.add(self.excish_fact(cur, base))
            s.add(z3.Not(self.excish_fact(self.enc(v), base)))
            if s.check() != z3.unsat:
                return False
        return True

    def carry_of(self, v, m, r):
        old = getattr(self, 'loop_base', 0)
        self.loop_base = r.base_next
        try:
            if isinstance(v, Poison):
                raise Unsupported('poisoned carry')
            return self.carry_term(v, m.sort)
        finally:
            self.loop_base = old

    # ---------------------------------------------------------------- result
    def apply_loop(self, n, k, mods, paths):
        norm = [r for r in paths if r.out == 'normal']
        exits = [r for r in paths if r.out != 'normal']
        for r in paths:
            self.counter = max(self.counter, r.maxc)
            self.next_id = max(self.next_id, r.maxid)
            for t in r.taint:
                if t not in self.taint:
                    self.taint += (t,)
        outer = list(self.loop_idx)
        b = z3.Const(self.uniq('b'), INT)
        kb = [(k, b)]
        alts_of = {}

        def conds(r):
            return conj(r.pc)
        for loc, m in mods.items():
            if loc[0] == 'seq':
                alts = []
                for r in norm:
                    ns = len(r.start_heap[loc[1]].segs)
                    extra = tuple(r.heap[loc[1]].segs[ns:])
                    self.no_fresh(extra, r)
                    alts.append((z3.substitute(conds(r), *kb), subst_segs(extra, kb, self)))
                alts_of[loc] = alts
            elif loc[0] == 'dict':
                alts = []
                for r in norm:
                    ns = len(r.start_heap[loc[1]].writes)
                    extra = []
                    for w in r.heap[loc[1]].writes[ns:]:
                        if not isinstance(w, W):
                            raise Unsupported('nested dictionary accumulation')
                        self.no_fresh_val(w.v, r)
                        extra.append((subst(w.k, kb, self), subst(w.v, kb, self)))
                    alts.append((z3.substitute(conds(r), *kb), tuple(extra)))
                alts_of[loc] = alts
            elif m.kind == 'poison':
                alts = []
                for r in norm:
                    v = self.read_loc(loc, r.heap, r.overlay)
                    c = z3.substitute(conds(r), *kb)
                    if isinstance(v, Poison):
                        v = KEEP
                    else:
                        try:
                            self.no_fresh_val(v, r)
                            v = subst(v, kb, self)
                        except Unsupported:
                            v = Opaque('DEAD')
                    alts.append((c, v))
                alts_of[loc] = alts

        def universal_upto(m_):
            """what every finishing iteration j < m_ satisfies"""
            j = z3.Const(self.uniq('j'), INT)
            kj = [(k, j)]
            rng = z3.And(j >= 0, j < m_)
            body = disj([z3.substitute(conj(r.pc + r.facts), *kj) for r in norm])
            self.universal([j], z3.Implies(rng, body))
            for r in norm:
                for u in r.univs:
                    c = z3.substitute(conds(r), *kj)
                    self.universal([j] + list(u.vars),
                                   z3.Implies(z3.And(rng, c), z3.substitute(u.body, *kj)))
            for loc, m in mods.items():
                if m.kind != 'carried' or m.closed is not None:
                    continue
                f = lambda i: m.fn(*(outer + [i]))
                self.fact(f(z3.IntVal(0)) == self.carry_term(m.init, m.sort))
                step = []
                for r in norm:
                    t = self.carry_of(self.read_loc(loc, r.heap, r.overlay), m, r)
                    step.append(z3.Implies(z3.substitute(conds(r), *kj),
                                           f(j + 1) == z3.substitute(t, *kj)))
                self.universal([j], z3.Implies(rng, conj(step)))
                if m.inv:
                    self.fact(self.excish_fact(f(m_), m.inv))
                self.index_term(m_)
                self.relate_carry(loc, m, norm, k, outer, n, m_)

        def post_val(loc, m, upto):
            if loc[0] == 'seq':
                return ISeg(b, upto, alts_of[loc])
            if loc[0] == 'dict':
                return BulkW(b, upto, alts_of[loc])
            if m.kind == 'carried':
                old = getattr(self, 'loop_outer', [])
                self.loop_outer = outer
                try:
                    return self.carry_val(m, upto)
                finally:
                    self.loop_outer = old
            return LastVal(b, upto, alts_of[loc], m.init, loc)

        def fill(heap, overlay, upto):
            """replace the placeholders in a heap"""
            for loc, m in mods.items():
                if loc[0] == 'seq':
                    c = heap[loc[1]]
                    s = [post_val(loc, m, upto) if isinstance(x, PHSeg) and x.loc == loc else x
                         for x in c.segs]
                    heap[loc[1]] = SeqCell(c.cls, s, c.attrs)
                elif loc[0] == 'dict':
                    c = heap[loc[1]]
                    s = [post_val(loc, m, upto) if isinstance(x, PHW) and x.loc == loc else x
                         for x in c.writes]
                    heap[loc[1]] = DictCell(c.cls, c.base, s, c.attrs)
                elif m.kind == 'poison':
                    v = self.read_loc(loc, heap, overlay)
                    if isinstance(v, Poison) and v.loc == loc:
                        sh, so = self.heap, self.overlay
                        self.heap, self.overlay = heap, overlay
                        try:
                            self.write_loc(loc, post_val(loc, m, upto))
                        finally:
                            self.heap, self.overlay = sh, so

        options = (['normal'] if norm else []) + list(range(len(exits)))
        if not options:
            raise Infeasible()
        d = options[self.choose(len(options), 'exit')]
        if d == 'normal':
            universal_upto(n)
            heap = dict(self.heap)
            for loc, m in mods.items():
                if loc[0] == 'seq':
                    c = heap[loc[1]]
                    heap[loc[1]] = SeqCell(c.cls, c.segs + (post_val(loc, m, n),), c.attrs)
                elif loc[0] == 'dict':
                    c = heap[loc[1]]
                    heap[loc[1]] = DictCell(c.cls, c.base, c.writes + (post_val(loc, m, n),), c.attrs)
            self.heap = heap
            for loc, m in mods.items():
                if loc[0] in ('env', 'attr', 'ov'):
                    self.write_loc(loc, post_val(loc, m, n))
            if self.sat() == 'unsat':
                raise Infeasible()
            return
        r = exits[d]
        heap, overlay = dict(r.heap), dict(r.overlay)
        fill(heap, overlay, k)
        self.heap, self.overlay = heap, overlay
        self.ghost = dict(r.ghost)
        self.lifted = dict(r.lifted)
        self.isq = dict(r.isq)
        for c in r.pc:
            self.assume(c)
        for f in r.facts:
            self.fact(f)
        for u in r.univs:
            self.univs.append(u)
        for t in r.idx:
            self.index_term(t)
        self.index_term(k)
        universal_upto(k)
        if self.sat() == 'unsat':
            raise Infeasible()
        raise r.val

    def relate_carry(self, loc, m, norm, k, outer, n, upto):
        """Induction: two carried values with equal start and equal step are equal."""
        x = z3.Const(self.uniq('x'), m.sort)
        cur = m.fn(*(outer + [k]))
        init = self.carry_term(m.init, m.sort)
        step = x
        for r in norm:
            t = self.carry_of(self.read_loc(loc, r.heap, r.overlay), m, r)
            step = z3.If(z3.substitute(conj(r.pc), (cur, x)), z3.substitute(t, (cur, x)), step)
        step = z3.substitute(step, (k, self.canon_k))
        facts = z3.substitute(disj([conj(r.facts + r.pc) for r in norm]), (cur, x), (k, self.canon_k))
        me = (m, outer, x, init, step, n, facts)
        for (m2, outer2, x2, init2, step2, n2, facts2) in self.carries:
            if m2.fn is m.fn or m2.sort != m.sort or outer or outer2:
                continue
            s = self.solver
            s.push()
            s.add(self.canon_k >= 0, self.canon_k < n)
            s.add(facts, z3.substitute(facts2, (x2, x)))
            s.add(z3.Or(init != init2, n != n2, step != z3.substitute(step2, (x2, x))))
            r = str(s.check())
            s.pop()
            if r == 'unsat':
                self.fact(m.fn(n) == m2.fn(n))
                self.fact(m.fn(upto) == m2.fn(upto))
                j = z3.Const(self.uniq('j'), INT)
                self.universal([j], z3.Implies(z3.And(j >= 0, j <= n), m.fn(j) == m2.fn(j)))
        self.carries.append(me)

    # ---------------------------------------------------------------- helpers
    def no_fresh(self, segs, r):
        for s in segs:
            if isinstance(s, Item):
                self.no_fresh_val(s.v, r)
            elif isinstance(s, ISeg):
                for c, g in s.alts:
                    self.no_fresh(g, r)

    def no_fresh_val(self, v, r):
        if isinstance(v, Ref) and v.id >= r.base_next:
            raise Unsupported('new object escapes a loop iteration')
        if isinstance(v, (Poison, LastVal)):
            raise Unsupported('unresolved value escapes a loop iteration')
        if isinstance(v, Tup):
            for x in v.items:
                self.no_fresh_val(x, r)
        if isinstance(v, BMeth):
            self.no_fresh_val(v.self, r)
        if isinstance(v, (GenV, Func, DictView)):
            raise Unsupported('closure escapes a loop iteration')

    def force_last(self, v):
        """Value of a location written by a finished loop."""
        if self.branch(v.n <= 0):
            if v.init is MISSING:
                self.raise_py(UnboundLocalError, 'loop variable')
            return self.force(v.init)
        keep = [c for c, x in v.alts if x is KEEP]
        if keep:
            wr = [c for c, x in v.alts if x is not KEEP]
            wb = self.fresh('lastw', BOOL)
            if not self.branch(wb):
                j = z3.Const(self.uniq('j'), INT)
                self.universal([j], z3.Implies(z3.And(j >= 0, j < v.n),
                                               z3.substitute(disj(keep), (v.k, j))))
                if v.init is MISSING:
                    self.raise_py(UnboundLocalError, 'loop variable')
                return self.force(v.init)
            last = self.fresh('lastidx', INT)
            self.assume(z3.And(last >= 0, last < v.n))
            self.assume(z3.substitute(disj(wr), (v.k, last)))
            j = z3.Const(self.uniq('j'), INT)
            self.universal([j], z3.Implies(z3.And(j > last, j < v.n),
                                           z3.substitute(disj(keep), (v.k, j))))
        else:
            last = v.n - 1
        self.index_term(last)
        alts = [(c, x) for c, x in v.alts if x is not KEEP]
        for c, val in alts[:-1]:
            if self.branch(z3.substitute(c, (v.k, last))):
                return self.last_value(val, v.k, last)
        c, val = alts[-1]
        self.assume(z3.substitute(c, (v.k, last)))
        return self.last_value(val, v.k, last)

    def last_value(self, val, k, last):
        if val is MISSING:
            self.raise_py(UnboundLocalError, 'loop variable')
        if isinstance(val, Opaque) and val.name == 'DEAD':
            raise Unsupported('object of the last loop iteration')
        return subst(val, [(k, last)], self)
