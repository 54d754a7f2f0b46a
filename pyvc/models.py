"""Semantics of Python's builtin types and functions over engine values.

Everything here is part of the trusted base of the verifier (the analogue of
a C verifier's model of libc); the cross-check runs it against CPython."""
import ast
import builtins
import collections
import datetime
import functools
import math
import types
import urllib.parse
import uuid
import warnings
import six
import z3

from .core import *          # noqa
from .core import V, FL
from . import core
from .interp import (subst, subst_segs, is_native, SCALARS, fl_const, str_const, interpretable)

BIG = 2 ** 1024 - 2 ** 970
PURE_STR = {'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace', 'title', 'capitalize',
            'zfill', 'startswith', 'endswith', 'find', 'join', 'split', 'format', 'encode', 'casefold',
            'isdigit', 'isalpha', 'isupper', 'islower', 'count', 'index', '__len__', '__contains__',
            '__getitem__', '__add__', '__eq__', '__ne__', 'swapcase', 'partition', 'rpartition', 'rsplit',
            'isspace', 'isalnum', 'rjust', 'ljust', 'center', 'expandtabs', 'splitlines', 'translate',
            'removeprefix', 'removesuffix', 'isidentifier'}


class Models(object):

    # ============================================================ sequences
    def iter_segs(self, v):
        v = self.narrow(v)
        if isinstance(v, Tup):
            return tuple(Item(x) for x in v.items)
        if isinstance(v, SegsV):
            return v.segs
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, SeqCell):
                return c.segs
            if isinstance(c, SetCell):
                return tuple(Item(x) for x in c.items)
            if isinstance(c, DictCell):
                return self.dict_segs(v, 'keys')
            d = self.class_lookup(c.cls, '__iter__')
            if d is not MISSING:
                return self.iter_segs(self.call(d, [v], {}))
            if self.class_lookup(c.cls, '__getitem__') is not MISSING:
                raise Unsupported('iteration through __getitem__')
            self.raise_py(TypeError, 'not iterable')
        if isinstance(v, DictView):
            return self.dict_segs(v.ref, v.kind)
        if isinstance(v, GenV):
            r = self.alloc(SeqCell(list, ()))
            self.iterate_gen(v, lambda x: self.seq_append(r, x))
            return self.cell(r).segs
        if isinstance(v, str):
            return tuple(Item(c) for c in v)
        if isinstance(v, (bytes, frozenset, range)):
            return tuple(Item(self.lift(c)) for c in v)
        if isinstance(v, SStr):
            raise Unsupported('iteration over a symbolic string')
        if isinstance(v, SObj) and v.cls is None:
            h = self.ghost.get('iter_opaque')
            if h is not None:
                return h(v)
            raise Unsupported('iteration over an opaque object')
        if isinstance(v, SObj):
            d = self.class_lookup(v.cls, '__iter__')
            if isinstance(d, (types.FunctionType, Func)):
                return self.iter_segs(self.call(d, [v], {}))
            if d is not MISSING:
                raise Unsupported('iteration over an abstract %s' % v.cls.__name__)
        if is_native(v) and not isinstance(v, SCALARS) and hasattr(type(v), '__iter__'):
            try:
                return tuple(Item(self.lift(x)) for x in v)
            except Exception:
                raise Unsupported('iteration over native object')
        self.raise_py(TypeError, 'object is not iterable')

    def seq_append(self, ref, v):
        c = self.cell(ref)
        self.heap[ref.id] = SeqCell(c.cls, c.segs + (Item(v),), c.attrs)

    def seq_extend(self, ref, it):
        it = self.narrow(it)
        if isinstance(it, GenV):
            self.iterate_gen(it, lambda x: self.seq_append(ref, x))
            return
        segs = self.iter_segs(it)
        c = self.cell(ref)
        self.heap[ref.id] = SeqCell(c.cls, c.segs + tuple(segs), c.attrs)

    def segs_len(self, segs):
        """Length as int or Int term."""
        n = 0
        for s in segs:
            if isinstance(s, Item):
                n = n + 1
            elif isinstance(s, PHSeg):
                raise PoisonRead(s.loc)
            elif isinstance(s, OSeg):
                n = n + self.oseg_len(s)
            else:
                cnt = set()
                for c, g in s.alts:
                    cnt.add(len(g) if all(isinstance(x, Item) for x in g) else None)
                if None not in cnt and len(cnt) == 1:
                    n = n + s.n * cnt.pop()
                else:
                    key = ('seglen', id(s))
                    if key not in self.ghost:
                        t = self.fresh('len', INT)
                        self.ghost[key] = (t, s)
                    t = self.ghost[key][0]
                    self.assume(t >= 0)
                    if all(k is not None for k in cnt):
                        self.assume(t <= s.n * max(cnt or {0}))
                    self.taint += ('length of a filtered sequence',)
                    n = n + t
        return n if isinstance(n, int) else z3.simplify(n)

    def seq_at(self, segs, i):
        """Element at a (non-negative, in range) index."""
        if isinstance(i, int):
            i_t = z3.IntVal(i)
        else:
            i_t = i
        off = z3.IntVal(0)
        for j, s in enumerate(segs):
            if isinstance(s, Item):
                c = z3.simplify(i_t == off)
                if j == len(segs) - 1:
                    self.assume(c)
                    return s.v
                if self.branch(c):
                    return s.v
                off = z3.simplify(off + 1)
            elif isinstance(s, ISeg):
                if not all(len(g) == 1 and isinstance(g[0], Item) for c, g in s.alts):
                    raise Unsupported('indexing a filtered sequence')
                inside = i_t < off + s.n
                if j == len(segs) - 1:
                    self.assume(inside)
                elif not self.branch(inside):
                    off = z3.simplify(off + s.n)
                    continue
                idx = z3.simplify(i_t - off)
                self.index_term(idx)
                for c, g in s.alts[:-1]:
                    if self.branch(z3.substitute(c, (s.k, idx))):
                        return subst(g[0].v, [(s.k, idx)], self)
                c, g = s.alts[-1]
                self.assume(z3.substitute(c, (s.k, idx)))
                return subst(g[0].v, [(s.k, idx)], self)
            elif isinstance(s, PHSeg):
                raise PoisonRead(s.loc)
            else:
                raise Unsupported('indexing opaque contents')
        raise Infeasible()

    # ============================================================ sets
    def set_add(self, ref, v):
        c = self.cell(ref)
        self.hashable(v)
        for x in c.items:
            if self.truth(self.eq(x, v)):
                return
        self.heap[ref.id] = SetCell(c.cls, c.items + (v,), c.attrs)

    def hashable(self, v):
        v = self.force(v)
        if isinstance(v, Ref):
            c = self.cell(v)
            if isinstance(c, (SeqCell, DictCell, SetCell)) and not issubclass(c.cls, (tuple, frozenset)):
                self.raise_py(TypeError, 'unhashable type')
        if isinstance(v, Tup):
            for x in v.items:
                self.hashable(x)

    # ============================================================ dicts
    def dict_set(self, ref, k, v):
        self.hashable(k)
        c = self.cell(ref)
        ws = c.writes
        # overwrite in place when the key is syntactically the same (keeps order)
        for i, w in enumerate(ws):
            if isinstance(w, W) and w.v is not MISSING and self.key_same(w.k, k) and \
                    all(isinstance(x, W) for x in ws[i:]) and \
                    all(self.key_distinct(x.k, k) for x in ws[i + 1:]):
                self.heap[ref.id] = DictCell(c.cls, c.base, ws[:i] + (W(w.k, v),) + ws[i + 1:], c.attrs)
                return
        self.heap[ref.id] = DictCell(c.cls, c.base, ws + (W(k, v),), c.attrs)

    def key_same(self, a, b):
        if is_native(a) and is_native(b):
            return type(a) is type(b) and a == b
        if isinstance(a, (Sym, SStr, SInt)) and type(a) is type(b):
            return a.t.eq(b.t)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        return False

    def key_distinct(self, a, b):
        return is_native(a) and is_native(b) and a != b

    def symkey(self, key):
        """(symbolic dictionary, index) when the key is the one at an index, else None."""
        t = z3.simplify(self.enc(key))
        if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(V.vs):
            a = t.arg(0)
            if z3.is_app(a) and a.num_args() == 1 and a.decl().eq(V.s):
                t = a.arg(0)
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in self.symdicts:
            return self.symdicts[t.decl().name()], t.arg(0)
        return None

    def own_iteration(self, w, key):
        """Is key the one this iteration of the loop is about, so that earlier iterations have not written it?"""
        sk = self.symkey(key)
        if sk is None or not sk[1].eq(w.k) or not z3.simplify(w.n).eq(z3.simplify(sk[0].n)):
            return False
        if self.own_key.setdefault((w.loc, w.k.decl().name()), sk[0]) is not sk[0]:
            return False
        return True

    def bulk_deletes(self, w, t):
        """The condition under which a BulkW that only deletes, at keys of a symbolic dictionary, deletes key t."""
        sd, conds = None, []
        for c, kvs in w.alts:
            if not kvs:
                continue
            sk = self.symkey(kvs[0][0]) if len(kvs) == 1 else None
            if sk is None or not sk[1].eq(w.k) or kvs[0][1] is not MISSING or sd not in (None, sk[0]):
                raise Unsupported('iterating a symbolic dictionary with bulk writes')
            sd = sk[0]
            conds.append(c)
        if sd is None:
            return z3.BoolVal(False)
        i = sd.idx_f(t)
        return z3.And(sd.has_f(t), i >= 0, i < w.n, disj([z3.substitute(c, (w.k, i)) for c in conds]))

    def bulk_find(self, w, key):
        """Value a BulkW gives for key, or NOTHING when it does not write it."""
        t = self.enc(key)
        sd = None
        for c, kvs in w.alts:
            for kk, vv in kvs:
                sk = self.symkey(kk)
                if sk is not None and sk[1].eq(w.k):
                    sd = sk[0] if sd in (None, sk[0]) else False
                else:
                    sd = False
        if sd:
            i = sd.idx_f(t)
            if not self.branch(z3.And(sd.has(t), i >= 0, i < w.n)):
                return NOTHING
            self.index_term(i)
            for c, kvs in w.alts:
                if self.branch(z3.substitute(c, (w.k, i))):
                    if not kvs:
                        return NOTHING
                    return subst(kvs[-1][1], [(w.k, i)], self)
            raise Infeasible()
        wr = []
        for c, kvs in w.alts:
            if kvs:
                if len(kvs) > 1:
                    raise Unsupported('several dictionary writes per iteration')
                wr.append((c, kvs[0][0], kvs[0][1]))
        if not wr:
            return NOTHING
        j = z3.Const(self.uniq('j'), INT)

        def hit(i):
            return disj([z3.And(z3.substitute(c, (w.k, i)),
                                self.pyeq_term(z3.substitute(self.enc(kk), (w.k, i)), t))
                         for c, kk, vv in wr])
        fb = self.fresh('found', BOOL)
        if not self.branch(fb):
            self.universal([j], z3.Implies(z3.And(j >= 0, j < w.n), z3.Not(hit(j))))
            return NOTHING
        i = self.fresh('wit', INT)
        self.assume(z3.And(i >= 0, i < w.n, hit(i)))
        self.index_term(i)
        self.universal([j], z3.Implies(z3.And(j > i, j < w.n), z3.Not(hit(j))))
        for c, kk, vv in wr:
            if self.branch(z3.substitute(c, (w.k, i))):
                return subst(vv, [(w.k, i)], self)
        raise Infeasible()

    def dict_get(self, c, key):
        """Value for key or MISSING."""
        self.hashable(key)
        key = self.force(key)
        for w in reversed(c.writes):
            if isinstance(w, PHW):
                if self.own_iteration(w, key):
                    continue
                raise PoisonRead(w.loc)
            if isinstance(w, W):
                if self.truth(self.eq(w.k, key)):
                    return w.v
                continue
            r = self.bulk_find(w, key)
            if r is not NOTHING:
                return r
        if c.base is None:
            return MISSING
        t = self.enc(key)
        if self.branch(c.base.has(t)):
            return c.base.factory(t)
        return MISSING

    def concrete_items(self, c):
        """[(k, v)] in order when the contents are explicit, else None."""
        if c.base is not None:
            return None
        out = []
        for w in c.writes:
            if isinstance(w, PHW):
                raise PoisonRead(w.loc)
            if not isinstance(w, W):
                return None
            hit = None
            for i, (k, v) in enumerate(out):
                if self.truth(self.eq(k, w.k)):
                    hit = i
                    break
            if w.v is MISSING:
                if hit is not None:
                    out.pop(hit)
            elif hit is not None:
                out[hit] = (out[hit][0], w.v)
            else:
                out.append((w.k, w.v))
        return out

    def normalise_dict(self, ref):
        """Resolve explicit writes against the symbolic part, or Unsupported."""
        c = self.cell(ref)
        return c

    def dict_segs(self, ref, kind):
        c = self.cell(ref)

        def el(k, v):
            if kind == 'keys':
                return k
            if kind == 'values':
                return v
            return Tup([k, v])
        items = self.concrete_items(c)
        if items is not None:
            return tuple(Item(el(k, v)) for k, v in items)
        segs = []
        seen = []
        if c.base is not None:
            sd = c.base
            b = z3.Const(self.uniq('kb'), INT)
            key = sd.key_f(b)
            over = [w for w in c.writes]
            if over and all(isinstance(w, BulkW) for w in over):
                # only deletions of the keys of other symbolic dictionaries: kept unless one of them deletes it
                gone = disj([self.bulk_deletes(w, key) for w in over])
                return (ISeg(b, sd.n, [(z3.Not(gone), (Item(el(self.dec_term(key), self.base_value(sd, key, kind))),)),
                                       (gone, ())]),)
            if any(not isinstance(w, W) for w in over):
                raise Unsupported('iterating a symbolic dictionary with bulk writes')
            if not over:
                return (ISeg(b, sd.n, [(z3.BoolVal(True),
                                        (Item(el(self.dec_term(key), self.base_value(sd, key, kind))),))]),)
            # explicit writes on top: per index, the last write with an equal key wins
            alts = []
            rest = []
            for w in reversed(over):
                t = self.enc(w.k)
                hit = (key == t)
                cond = z3.And(hit, *[z3.Not(r) for r in rest]) if rest else hit
                if w.v is MISSING:
                    alts.append((cond, ()))
                else:
                    alts.append((cond, (Item(el(self.dec_term(key), w.v)),)))
                rest.append(hit)
            alts.append((z3.And(*[z3.Not(r) for r in rest]),
                         (Item(el(self.dec_term(key), self.base_value(sd, key, kind))),)))
            segs.append(ISeg(b, sd.n, alts))
            new = []
            for w in over:
                if self.truth(self.bval(sd.has(self.enc(w.k)))):
                    continue
                hit = [i for i, (k, v) in enumerate(new) if self.truth(self.eq(k, w.k))]
                if w.v is MISSING:
                    for i in reversed(hit):
                        new.pop(i)
                elif hit:
                    new[hit[0]] = (new[hit[0]][0], w.v)
                else:
                    new.append((w.k, w.v))
            return tuple(segs) + tuple(Item(el(k, v)) for k, v in new)
        # no base: explicit writes and bulk writes with provably distinct keys
        for w in c.writes:
            if isinstance(w, W):
                if w.v is MISSING:
                    t = self.enc(w.k)
                    kept, segs2 = [], []
                    for o, sg in zip(seen, segs):
                        if isinstance(o, W):
                            if not self.truth(self.eq(o.k, w.k)):
                                kept.append(o)
                                segs2.append(sg)
                            continue
                        alts = []
                        for (cd, kvs), (_, items) in zip(o.alts, sg.alts):
                            if not kvs:
                                alts.append((cd, items))
                                continue
                            if len(kvs) > 1:
                                raise Unsupported('deletion in a symbolic dictionary')
                            hit = self.enc(kvs[0][0]) == t
                            alts.append((z3.And(cd, z3.Not(hit)), items))
                            alts.append((z3.And(cd, hit), ()))
                        kept.append(BulkW(o.k, o.n, [(cd, kvs if items else ()) for (cd, items), kvs in
                                                     zip(alts, [x for _, kv in o.alts for x in ([kv, ()] if kv else [kv])])]))
                        segs2.append(ISeg(o.k, o.n, alts))
                    seen, segs = kept, segs2
                    continue
                for o in seen:
                    self.require_disjoint(o, w)
                seen.append(w)
                segs.append(Item(el(w.k, w.v)))
            else:
                for o in seen:
                    self.require_disjoint(o, w)
                self.require_injective(w)
                seen.append(w)
                segs.append(ISeg(w.k, w.n, [(cd, tuple(Item(el(k, v)) for k, v in kvs))
                                            for cd, kvs in w.alts]))
        return tuple(segs)

    def base_value(self, sd, key, kind):
        return None if kind == 'keys' else sd.factory(key)

    def require_injective(self, w):
        names = set()
        for c, kvs in w.alts:
            if len(kvs) > 1:
                raise Unsupported('order of dictionary keys')
            for k, v in kvs:
                t = z3.simplify(self.enc(k))
                if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in self.symdicts and t.arg(0).eq(w.k):
                    names.add(t.decl().name())
                else:
                    raise Unsupported('order of dictionary keys')
        if len(names) > 1:
            raise Unsupported('order of dictionary keys')

    def require_disjoint(self, a, b):
        def keys(w, i):
            if isinstance(w, W):
                return [(z3.BoolVal(True), self.enc(w.k))]
            return [(z3.And(i >= 0, i < w.n, z3.substitute(c, (w.k, i))),
                     z3.substitute(self.enc(k), (w.k, i))) for c, kvs in w.alts for k, v in kvs]
        i, j = z3.Const(self.uniq('i'), INT), z3.Const(self.uniq('j'), INT)
        self.index_term(i)
        self.index_term(j)
        for c1, k1 in keys(a, i):
            for c2, k2 in keys(b, j):
                if self.sat(c1, c2, k1 == k2) != 'unsat':
                    raise Unsupported('dictionary keys may coincide')

    def dict_nonempty(self, ref):
        c = self.cell(ref)
        for w in c.writes:
            if isinstance(w, PHW):
                raise PoisonRead(w.loc)
        if c.base is None and all(isinstance(w, W) for w in c.writes):
            return len(self.concrete_items(c)) > 0
        if c.base is not None and not c.writes:
            return c.base.n > 0
        return self.segs_nonempty(self.dict_segs(ref, 'keys'))

    def dict_update(self, ref, other):
        other = self.narrow(other)
        if isinstance(other, Ref) and isinstance(self.cell(other), DictCell):
            oc = self.cell(other)
            items = self.concrete_items(oc)
            if items is not None:
                for k, v in items:
                    self.dict_set(ref, k, v)
                return
            c = self.cell(ref)
            if oc.base is None:
                self.heap[ref.id] = DictCell(c.cls, c.base, c.writes + oc.writes, c.attrs)
                return
            sd = oc.base
            b = z3.Const(self.uniq('ub'), INT)
            key = sd.key_f(b)
            bulk = BulkW(b, sd.n, [(z3.BoolVal(True), ((self.dec_term(key), sd.factory(key)),))])
            self.heap[ref.id] = DictCell(c.cls, c.base, c.writes + (bulk,) + oc.writes, c.attrs)
            return
        if isinstance(other, Ref) and isinstance(self.cell(other), InstCell) or is_native(other) or \
                isinstance(other, (SInt, SStr, SBool, SFl)):
            if not isinstance(other, (Ref,)) and not hasattr(other, '__iter__'):
                self.raise_py(TypeError, 'not iterable')
        segs = self.iter_segs(other)

        def one(x):
            a, b = self.unpack(x, 2)
            self.dict_set(ref, a, b)
        self.iter_over(segs, one)

    def dict_len(self, ref):
        c = self.cell(ref)
        items = self.concrete_items(c)
        if items is not None:
            return len(items)
        if c.base is not None and not c.writes:
            return c.base.n
        segs = self.dict_segs(ref, 'keys')
        if c.base is None or self.loop_idx or any(isinstance(s, Item) for s in segs):
            return self.segs_len(segs)
        if not self.segs_nonempty(segs):
            return 0
        n = self.segs_len(segs)
        if not isinstance(n, int):
            self.assume(n >= 1)
        return n

    # ============================================================ subscripts
    def getitem(self, o, i):
        o = self.narrow(o)
        i = self.force(i)
        if isinstance(o, Tup) or (isinstance(o, Ref) and isinstance(self.cell(o), SeqCell)):
            segs = self.iter_segs(o)
            if isinstance(i, Tup) and i.cls is slice:
                return self.slice_(o, segs, i)
            i = self.narrow(i)
            n = self.as_num(i)
            if n is None or n[0] != 'i':
                self.raise_py(TypeError, 'indices must be integers')
            ln = self.segs_len(segs)
            it = i if isinstance(i, int) else n[1]
            if isinstance(it, int) and isinstance(ln, int):
                if it < -ln or it >= ln:
                    self.raise_py(IndexError, 'index out of range')
                if it < 0:
                    it += ln
                if all(isinstance(s, Item) for s in segs):
                    return segs[it].v
            lt = z3.IntVal(ln) if isinstance(ln, int) else ln
            tt = z3.IntVal(it) if isinstance(it, int) else it
            if self.branch(z3.Or(tt >= lt, tt < -lt)):
                self.raise_py(IndexError, 'index out of range')
            if self.branch(tt < 0):
                tt = tt + lt
            return self.seq_at(segs, tt)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictCell):
                v = self.dict_get(c, i)
                if v is MISSING:
                    self.raise_py(KeyError, i)
                return v
            d = self.class_lookup(c.cls, '__getitem__')
            if d is not MISSING:
                return self.call(d, [o, i], {})
            self.raise_py(TypeError, 'not subscriptable')
        if isinstance(o, (str, SStr)):
            if isinstance(o, str) and is_native(i):
                if not isinstance(i, int):
                    self.raise_py(TypeError, 'string indices')
                try:
                    return o[i]
                except IndexError:
                    self.raise_py(IndexError, 'string index')
            if isinstance(i, Tup) and i.cls is slice:
                if isinstance(o, str) and all(is_native(x) for x in i.items):
                    return o[slice(*i.items)]
                return self.str_slice(o, i)
            n = self.as_num(self.narrow(i))
            if n is None:
                self.raise_py(TypeError, 'string indices')
            t = self.strt(o)
            ln = self.strlen(t)
            if self.branch(z3.Or(n[1] >= ln, n[1] < -ln)):
                self.raise_py(IndexError, 'string index')
            idx = n[1]
            if self.branch(idx < 0):
                idx = idx + ln
            return self.sval(z3.SubString(t, idx, 1))
        if isinstance(o, SObj) and o.cls is None:
            return self.opaque_op('getitem', [o, i])
        if o is None or isinstance(o, (SInt, SBool, SFl, SCx)) or isinstance(o, (int, float, complex)):
            self.raise_py(TypeError, 'not subscriptable')
        if is_native(o) and is_native(i):
            try:
                return self.lift(o[i])
            except Exception as e:
                self.raise_py(type(e), str(e))
        raise Unsupported('subscript of %r' % (o,))

    def str_slice(self, o, i):
        lo, hi, st = i.items
        if st is not None:
            raise Unsupported('string step slice')
        t = self.strt(o)
        ln = self.strlen(t)

        def bound(x, dflt):
            if x is None:
                return dflt
            b = self.as_num(self.narrow(x))[1]
            b = z3.If(b < 0, z3.If(b + ln < 0, z3.IntVal(0), b + ln), z3.If(b > ln, ln, b))
            return b
        a, b = bound(lo, z3.IntVal(0)), bound(hi, ln)
        return self.sval(z3.If(b > a, z3.SubString(t, a, b - a), z3.StringVal('')))

    def slice_(self, o, segs, i):
        lo, hi, st = [self.narrow(x) for x in i.items]
        if not all(isinstance(s, Item) for s in segs):
            if (lo, hi, st) == (None, None, None):
                return self.alloc(SeqCell(list, segs)) if isinstance(o, Ref) else SegsV(segs)
            raise Unsupported('slice of a symbolic sequence')
        if not all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            raise Unsupported('symbolic slice')
        r = segs[slice(lo, hi, st)]
        if isinstance(o, Tup):
            return Tup([s.v for s in r])
        c = self.cell(o)
        if issubclass(c.cls, tuple):
            return Tup([s.v for s in r])
        return self.alloc(SeqCell(list, r))

    def setitem(self, o, i, v):
        o = self.narrow(o)
        if isinstance(o, Ref):
            c = self.cell(o)
            d = self.class_lookup(c.cls, '__setitem__')
            if isinstance(d, (types.FunctionType, Func)):
                self.call(d, [o, i, v], {})
                return
            if isinstance(c, DictCell):
                self.dict_set(o, self.force(i), v)
                return
            if isinstance(c, SeqCell):
                i = self.narrow(i)
                if all(isinstance(s, Item) for s in c.segs) and isinstance(i, int):
                    if not -len(c.segs) <= i < len(c.segs):
                        self.raise_py(IndexError, 'index')
                    segs = list(c.segs)
                    segs[i] = Item(v)
                    self.heap[o.id] = SeqCell(c.cls, segs, c.attrs)
                    return
                raise Unsupported('assignment into a symbolic sequence')
            self.raise_py(TypeError, 'no item assignment')
        if isinstance(o, SObj) and o.cls is None:
            raise Unsupported('item assignment on opaque object')
        self.raise_py(TypeError, 'no item assignment')

    def delitem(self, o, i):
        o = self.narrow(o)
        if isinstance(o, Ref):
            c = self.cell(o)
            d = self.class_lookup(c.cls, '__delitem__')
            if isinstance(d, (types.FunctionType, Func)):
                self.call(d, [o, i], {})
                return
            if isinstance(c, DictCell):
                self.dict_pop(o, self.force(i), None, False)
                return
            if isinstance(c, SeqCell):
                i = self.narrow(i)
                if all(isinstance(s, Item) for s in c.segs) and isinstance(i, int):
                    if not -len(c.segs) <= i < len(c.segs):
                        self.raise_py(IndexError, 'index')
                    segs = list(c.segs)
                    del segs[i]
                    self.heap[o.id] = SeqCell(c.cls, segs, c.attrs)
                    return
        raise Unsupported('item deletion')

    def dict_pop(self, ref, key, default, has_default):
        c = self.cell(ref)
        v = self.dict_get(c, key)
        if v is MISSING:
            if has_default:
                return default
            self.raise_py(KeyError, key)
        c = self.cell(ref)
        if c.base is None and all(isinstance(w, W) for w in c.writes):
            ws = [w for w in c.writes if not self.key_same(w.k, key)]
            if len(ws) == len(c.writes) - 1:
                rest_ok = all(self.key_distinct(w.k, key) for w in ws)
                if rest_ok:
                    self.heap[ref.id] = DictCell(c.cls, None, ws, c.attrs)
                    return v
        self.heap[ref.id] = DictCell(c.cls, c.base, c.writes + (W(key, MISSING),), c.attrs)
        return v

    # ============================================================ operators
    def opaque_op(self, name, args, result=None, errors=(TypeError, ValueError)):
        """An operation on an opaque object: an uninterpreted value or exception."""
        self.taint += ('operation %s on an opaque object' % name,)
        ts = [self.enc(a) for a in args]
        f = z3.Function('op!%s!%d' % (name, len(ts)), *([V] * len(ts) + [V]))
        g = z3.Function('opx!%s!%d' % (name, len(ts)), *([V] * len(ts) + [INT]))
        tag = g(*ts)
        for i, e in enumerate(errors):
            if self.branch(tag == i + 1):
                self.raise_py(e, 'opaque')
        r = f(*ts)
        if result is int:
            self.assume(V.is_vi(r))
        elif result is float:
            self.assume(V.is_vf(r))
        elif result is complex:
            self.assume(V.is_vx(r))
        elif result is str:
            self.assume(V.is_vs(r))
        elif result is bool:
            self.assume(V.is_vb(r))
        return self.dec_term(r)

    OPNAMES = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'BitOr': '__or__',
               'BitAnd': '__and__', 'BitXor': '__xor__', 'Mod': '__mod__'}

    def binop(self, op, a, b):
        a, b = self.narrow(a), self.narrow(b)
        if is_native(a) and is_native(b):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
                 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow,
                 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor,
                 'LShift': operator.lshift, 'RShift': operator.rshift}[op]
            try:
                return self.lift(f(a, b))
            except Exception as e:
                self.raise_py(type(e), str(e))
        if op == 'Mod' and isinstance(a, (str, SStr)):
            return self.opaque_str('mod')
        na, nb = self.as_num(a), self.as_num(b)
        if na and nb:
            return self.arith(op, na, nb)
        if op == 'Add' and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.sval(z3.Concat(self.strt(a), self.strt(b)))
        if op == 'Mult' and isinstance(a, (str, SStr)) and nb and isinstance(b, int):
            return self.sval(z3.Concat(*[self.strt(a)] * b)) if b > 1 else (a if b == 1 else '')
        if isinstance(a, Tup) and isinstance(b, Tup) and op == 'Add':
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and nb and op == 'Mult' and isinstance(b, int):
            return Tup(a.items * b)
        if isinstance(a, Ref):
            c = self.cell(a)
            nm = self.OPNAMES.get(op)
            d = self.class_lookup(c.cls, nm) if nm else MISSING
            if isinstance(d, (types.FunctionType, Func)):
                return self.call(d, [a, b], {})
            if isinstance(c, SeqCell) and issubclass(c.cls, list) and op == 'Add':
                if isinstance(b, Ref) and isinstance(self.cell(b), SeqCell):
                    return self.alloc(SeqCell(list, c.segs + self.cell(b).segs))
                self.raise_py(TypeError, 'can only concatenate list')
            if isinstance(c, SetCell) and isinstance(b, Ref) and isinstance(self.cell(b), SetCell):
                return self.set_op(op, c, self.cell(b))
            if isinstance(c, SeqCell) and op == 'Mult' and isinstance(b, int):
                return self.alloc(SeqCell(list, c.segs * b))
        if isinstance(a, SObj) and a.cls is None or isinstance(b, SObj) and b.cls is None:
            return self.opaque_op(op, [a, b])
        self.raise_py(TypeError, 'unsupported operand types')

    def set_op(self, op, c, d):
        ins = lambda x, its: any(self.truth(self.eq(x, y)) for y in its)
        if op == 'BitOr':
            items = list(c.items) + [x for x in d.items if not ins(x, c.items)]
        elif op == 'BitAnd':
            items = [x for x in c.items if ins(x, d.items)]
        elif op == 'Sub':
            items = [x for x in c.items if not ins(x, d.items)]
        else:
            items = [x for x in c.items if not ins(x, d.items)] + [x for x in d.items if not ins(x, c.items)]
        return self.alloc(SetCell(set, items))

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if op == 'Add':
                return self.ival(x + y)
            if op == 'Sub':
                return self.ival(x - y)
            if op == 'Mult':
                return self.ival(x * y)
            if op in ('FloorDiv', 'Mod', 'Div'):
                if self.branch(y == 0):
                    self.raise_py(ZeroDivisionError, 'division by zero')
                if op == 'Div':
                    return SFl(FL.fin(z3.ToReal(x) / z3.ToReal(y)))
                q = z3.If(y > 0, x / y, -x / -y) if False else z3.If(y > 0, x / y, (-x) / (-y))
                return self.ival(q) if op == 'FloorDiv' else self.ival(x - q * y)
            raise Unsupported('integer operator %s' % op)
        if a[0] == 'x' or b[0] == 'x':
            z = FL.fin(z3.RealVal(0))
            ar, ai = (a[1], a[2]) if a[0] == 'x' else (self.num_to_fl(a), z)
            br, bi = (b[1], b[2]) if b[0] == 'x' else (self.num_to_fl(b), z)
            if op == 'Add':
                return SCx(self.fl_add(ar, br), self.fl_add(ai, bi))
            if op == 'Sub':
                return SCx(self.fl_add(ar, self.fl_neg(br)), self.fl_add(ai, self.fl_neg(bi)))
            raise Unsupported('complex operator %s' % op)
        if a[0] == 'i' or b[0] == 'i':
            i = a if a[0] == 'i' else b
            if self.branch(z3.Or(i[1] >= BIG, i[1] <= -BIG)):
                self.raise_py(OverflowError, 'int too large to convert to float')
        x, y = self.num_to_fl(a), self.num_to_fl(b)
        if op == 'Add':
            return SFl(self.fl_add(x, y))
        if op == 'Sub':
            return SFl(self.fl_add(x, self.fl_neg(y)))
        if op == 'Mult':
            fin = FL.fin(FL.r(x) * FL.r(y))
            self.taint += ('float multiplication',)
            return SFl(z3.If(z3.And(FL.is_fin(x), FL.is_fin(y)), fin, self.fresh('flmul', FL)))
        if op == 'Div':
            if self.branch(y == FL.fin(z3.RealVal(0))):
                self.raise_py(ZeroDivisionError, 'division by zero')
            self.taint += ('float division',)
            return SFl(z3.If(z3.And(FL.is_fin(x), FL.is_fin(y)), FL.fin(FL.r(x) / FL.r(y)),
                             self.fresh('fldiv', FL)))
        raise Unsupported('float operator %s' % op)

    def fl_add(self, x, y):
        return z3.If(z3.And(FL.is_fin(x), FL.is_fin(y)), FL.fin(FL.r(x) + FL.r(y)),
                     z3.If(z3.Or(x == FL.nan, y == FL.nan), FL.nan,
                           z3.If(FL.is_fin(x), y,
                                 z3.If(FL.is_fin(y), x, z3.If(x == y, x, FL.nan)))))

    def compare(self, op, a, b):
        if op == 'Is':
            return self.is_(a, b)
        if op == 'IsNot':
            return self.not_(self.is_(a, b))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.not_(self.eq(a, b))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else self.not_(r)
        a, b = self.narrow(a), self.narrow(b)
        if is_native(a) and is_native(b):
            import operator
            f = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op]
            try:
                return f(a, b)
            except TypeError as e:
                self.raise_py(TypeError, str(e))
        na, nb = self.as_num(a), self.as_num(b)
        if na and nb:
            if na[0] == 'x' or nb[0] == 'x':
                self.raise_py(TypeError, 'complex comparison')
            if op in ('Gt', 'GtE'):
                na, nb = nb, na
            return self.bval(self.num_lt(na, nb, op in ('LtE', 'GtE')))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            x, y = self.strt(a), self.strt(b)
            if op in ('Gt', 'GtE'):
                x, y = y, x
            return self.bval(x <= y if op in ('LtE', 'GtE') else x < y)
        if isinstance(a, SObj) and a.cls is None or isinstance(b, SObj) and b.cls is None:
            return self.opaque_op('cmp' + op, [a, b])
        if isinstance(a, Tup) and isinstance(b, Tup) or isinstance(a, Ref):
            raise Unsupported('ordering of containers')
        self.raise_py(TypeError, 'ordering not supported')

    def not_(self, v):
        t = self.truth_term(v)
        return (not t) if isinstance(t, bool) else self.bval(z3.Not(t))

    def contains(self, o, x):
        o = self.narrow(o)
        if isinstance(o, Tup):
            for y in o.items:
                if self.truth(self.eq(y, x)):
                    return True
            return False
        if isinstance(o, Ref):
            c = self.cell(o)
            d = self.class_lookup(c.cls, '__contains__')
            if isinstance(d, (types.FunctionType, Func)):
                return self.call(d, [o, x], {})
            if isinstance(c, DictCell):
                return self.dict_get(c, x) is not MISSING
            if isinstance(c, SetCell):
                self.hashable(x)
                for y in c.items:
                    if self.truth(self.eq(y, x)):
                        return True
                return False
            if isinstance(c, SeqCell):
                found = []

                def body(y):
                    if self.truth(self.eq(y, x)):
                        raise BreakEx()
                try:
                    self.iter_over(c.segs, body)
                except BreakEx:
                    return True
                return False
            self.raise_py(TypeError, 'not a container')
        if isinstance(o, (str, SStr)):
            x = self.narrow(x)
            if not isinstance(x, (str, SStr)):
                if isinstance(x, SObj):
                    self.taint += ('opaque in str',)
                self.raise_py(TypeError, 'in <string> requires string')
            if isinstance(o, str) and isinstance(x, str):
                return x in o
            return self.bval(z3.Contains(self.strt(o), self.strt(x)))
        if isinstance(o, DictView):
            if o.kind == 'keys':
                return self.dict_get(self.cell(o.ref), x) is not MISSING
            o = SegsV(self.iter_segs(o))
        if isinstance(o, (SegsV, GenV)):
            def body(y):
                if self.truth(self.eq(y, x)):
                    raise BreakEx()
            return not self.iterate(o, body)
        if is_native(o) and isinstance(o, (frozenset, range, bytes)) and is_native(x):
            return x in o
        if isinstance(o, SObj) and o.cls is None:
            return self.opaque_op('contains', [o, x], result=bool)
        if isinstance(o, SObj):
            d = self.class_lookup(o.cls, '__contains__')
            if isinstance(d, (types.FunctionType, Func)):
                return self.call(d, [o, x], {})
            if d is not MISSING or self.class_lookup(o.cls, '__iter__') is not MISSING:
                raise Unsupported('containment in an abstract %s' % o.cls.__name__)
        if is_native(o) and is_native(x) and not isinstance(o, SCALARS):
            return x in o
        self.raise_py(TypeError, 'argument is not iterable')

    # ============================================================ methods of builtin types
    def builtin_method(self, o, name, args, kwargs, cls=None):
        o = self.narrow(o)
        if name == '__init__' and cls is object or name == '__init_subclass__':
            return None
        if isinstance(o, (str, SStr)):
            return self.str_method(o, name, args, kwargs)
        if isinstance(o, type):
            return self.type_method(o, name, args, kwargs)
        if isinstance(o, Ref):
            c = self.cell(o)
            if isinstance(c, DictCell):
                m = getattr(self, 'dm_' + name.strip('_'), None)
                if m is not None:
                    return m(o, args, kwargs)
            elif isinstance(c, SeqCell):
                m = getattr(self, 'lm_' + name.strip('_'), None)
                if m is not None:
                    return m(o, args, kwargs)
            elif isinstance(c, SetCell):
                m = getattr(self, 'sm_' + name.strip('_'), None)
                if m is not None:
                    return m(o, args, kwargs)
            if name == '__init__':
                if issubclass(c.cls, BaseException):
                    self.raw_setattr(o, 'args', Tup(args))
                return None
            if name == '__setattr__':
                self.raw_setattr(o, args[0], args[1])
                return None
            if name == '__eq__':
                return self.eq(o, args[0]) if not isinstance(c, InstCell) else self.is_(o, args[0])
            if name in ('__str__', '__repr__', '__format__'):
                return self.opaque_str('repr')
            if name == '__hash__':
                return SInt(self.fresh('hash', INT))
            raise Unsupported('method %s of %s' % (name, c.cls.__name__))
        if isinstance(o, Tup):
            m = getattr(self, 'lm_' + name.strip('_'), None)
            if m is not None and name.strip('_') in ('len', 'getitem', 'contains', 'iter', 'index', 'count', 'add'):
                return m(o, args, kwargs)
            fields = getattr(o.cls, '_fields', ())
            if name == '_replace' and fields and not args and all(k in fields for k in kwargs):
                return Tup([kwargs.get(k, x) for k, x in zip(fields, o.items)], o.cls)
            if name == 'geturl' and o.cls is urllib.parse.ParseResult and not args and not kwargs:
                return m_urlunparse(self, [o], {})
            if fields:
                raise Unsupported('namedtuple method')
        if isinstance(o, (SInt, SBool, SFl, SCx)):
            n = self.as_num(o)
            if name == 'conjugate':
                return o
            if name == 'is_integer' and n[0] == 'f':
                return self.bval(z3.And(FL.is_fin(n[1]), z3.IsInt(FL.r(n[1]))))
            raise Unsupported('number method %s' % name)
        if isinstance(o, (GenV, SegsV)) and name == '__iter__':
            return o
        if is_native(o):
            if all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values()):
                try:
                    return self.lift(getattr(o, name)(*args, **kwargs))
                except Exception as e:
                    self.raise_py(type(e), str(e))
            return self.opaque_op('m!' + type(o).__name__ + '.' + name, [o] + args)
        raise Unsupported('method %s of %s' % (name, type(o).__name__))

    # ------------------------------------------------------------ str
    def format_simple(self, o, args, kwargs):
        """Concatenation if every field is a plain reference to text, else text not modelled."""
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(o):
                if lit:
                    parts.append(lit)
                if field is None:
                    continue
                if field == '':
                    field, auto = str(auto), auto + 1
                v = args[int(field)] if field.isdigit() else kwargs.get(field)
                if spec or conv or not isinstance(v, (str, SStr)):
                    return self.opaque_str('format')
                parts.append(v)
        except (ValueError, IndexError):
            return self.opaque_str('format')
        return self.concat_text(parts)

    def concat_text(self, parts):
        if all(isinstance(x, str) for x in parts):
            return ''.join(parts)
        ts = [self.strt(x) for x in parts if not isinstance(x, str) or x]
        return self.sval(z3.Concat(*ts) if len(ts) > 1 else ts[0])

    def str_method(self, o, name, args, kwargs):
        args = [self.narrow(a) for a in args]
        if isinstance(o, str) and all(is_native(a) and isinstance(a, SCALARS) for a in args) and not kwargs:
            try:
                return self.lift(getattr(o, name)(*args))
            except Exception as e:
                self.raise_py(type(e), str(e))
        if name == 'format' and isinstance(o, str):
            return self.format_simple(o, args, kwargs)
        if name in ('format', '__format__', '__repr__', '__mod__'):
            return self.opaque_str('format')
        if name == '__str__':
            return o
        if name == 'encode':
            f = z3.Function('str.encode', STR, V)
            r = f(self.strt(o))
            self.fact(z3.And(V.is_vo(r), z3.Not(self.isinst_pred(V.o(r), BaseException))))
            return self.dec_term(r)
        if name == 'join':
            segs = self.iter_segs(args[0])
            if isinstance(o, str) and all(isinstance(s, Item) for s in segs):
                its = [self.narrow(s.v) for s in segs]
                if all(isinstance(x, str) for x in its):
                    return o.join(its)
                if its and all(isinstance(x, (str, SStr)) for x in its):
                    ts = []
                    for i, x in enumerate(its):
                        if i and o:
                            ts.append(self.strt(o))
                        ts.append(self.strt(x))
                    return self.sval(z3.Concat(*ts) if len(ts) > 1 else ts[0])
            return self.opaque_str('join')
        t = self.strt(o)
        if name == '__len__':
            return self.ival(self.strlen(t))
        if name == 'startswith' and isinstance(args[0], (str, SStr)):
            return self.bval(z3.PrefixOf(self.strt(args[0]), t))
        if name == 'endswith' and isinstance(args[0], (str, SStr)):
            return self.bval(z3.SuffixOf(self.strt(args[0]), t))
        if name == '__contains__':
            return self.contains(o, args[0])
        if name == '__eq__':
            return self.eq(o, args[0])
        if name in ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase'):
            f = z3.Function('str.' + name, STR, STR)
            if name in ('upper', 'lower', 'casefold'):
                self.fact(f(f(t)) == f(t))
            return SStr(f(t))
        if name in ('strip', 'lstrip', 'rstrip'):
            a = args[0] if args else None
            if a is None:
                f = z3.Function('str.' + name + '0', STR, STR)
                self.fact(f(f(t)) == f(t))
                return SStr(f(t))
            if not isinstance(a, (str, SStr)):
                self.raise_py(TypeError, 'strip arg must be None or str')
            at = self.strt(a)
            f = z3.Function('str.' + name, STR, STR, STR)
            self.fact(f(f(t, at), at) == f(t, at))
            self.fact(f(t, z3.StringVal('')) == t)
            return SStr(f(t, at))
        if name in PURE_STR and all(isinstance(a, (str, SStr, int, SInt)) for a in args) and not kwargs:
            ts = [self.enc(a) for a in args]
            rs = {'find': INT, 'count': INT}.get(name)
            if rs is None and name.startswith('is'):
                rs = BOOL
            if rs is None and name in ('replace', 'zfill', 'rjust', 'ljust', 'center'):
                rs = STR
            if rs is not None:
                f = z3.Function('str.%s%d' % (name, len(ts)), *([STR] + [V] * len(ts) + [rs]))
                r = f(t, *ts)
                return {INT: self.ival, BOOL: self.bval, STR: self.sval}[rs](r)
        raise Unsupported('str.%s' % name)

    # ------------------------------------------------------------ type
    def type_method(self, o, name, args, kwargs):
        if name == '__call__':
            return self.instantiate_plain(o, args, kwargs)
        if name == '__new__':
            raise Unsupported('class construction')
        if name == 'fromkeys' and issubclass(o, dict):
            r = self.alloc(DictCell(o))
            self.iterate(args[0], lambda k: self.dict_set(r, k, args[1] if len(args) > 1 else None))
            return r
        if name == 'mro':
            return self.alloc(SeqCell(list, [Item(c) for c in o.__mro__]))
        if name == '__init__':
            return None
        if o is datetime.datetime and name == 'strptime':
            self.stats.libs.add('datetime.datetime.strptime')
            return m_strptime(self, list(args), kwargs)
        if all(is_native(a) for a in args) and not kwargs:
            try:
                return self.lift(getattr(o, name)(*args))
            except Exception as e:
                self.raise_py(type(e), str(e))
        return self.opaque_op('cm!%s.%s' % (o.__name__, name), args)

    # ------------------------------------------------------------ dict
    def dm_get(self, o, a, kw):
        v = self.dict_get(self.cell(o), a[0])
        if v is MISSING:
            return a[1] if len(a) > 1 else None
        return v

    def dm_getitem(self, o, a, kw):
        return self.getitem(o, a[0])

    def dm_setitem(self, o, a, kw):
        self.dict_set(o, a[0], a[1])

    def dm_delitem(self, o, a, kw):
        self.dict_pop(o, a[0], None, False)

    def dm_contains(self, o, a, kw):
        return self.dict_get(self.cell(o), a[0]) is not MISSING

    def dm_len(self, o, a, kw):
        n = self.dict_len(o)
        return n if isinstance(n, int) else self.ival(n)

    def dm_keys(self, o, a, kw):
        return DictView(o, 'keys')

    def dm_values(self, o, a, kw):
        return DictView(o, 'values')

    def dm_items(self, o, a, kw):
        return DictView(o, 'items')

    dm_iteritems, dm_itervalues, dm_iterkeys = dm_items, dm_values, dm_keys

    def dm_iter(self, o, a, kw):
        return DictView(o, 'keys')

    def dm_pop(self, o, a, kw):
        return self.dict_pop(o, a[0], a[1] if len(a) > 1 else None, len(a) > 1)

    def dm_update(self, o, a, kw):
        if a:
            self.dict_update(o, a[0])
        for k, v in kw.items():
            self.dict_set(o, k, v)

    def dm_copy(self, o, a, kw):
        c = self.cell(o)
        return self.alloc(DictCell(c.cls if issubclass(c.cls, (collections.OrderedDict, collections.defaultdict)) else dict, c.base, c.writes))

    def dm_clear(self, o, a, kw):
        c = self.cell(o)
        self.heap[o.id] = DictCell(c.cls, None, (), c.attrs)

    def dm_setdefault(self, o, a, kw):
        v = self.dict_get(self.cell(o), a[0])
        if v is MISSING:
            d = a[1] if len(a) > 1 else None
            self.dict_set(o, a[0], d)
            return d
        return v

    def dm_init(self, o, a, kw):
        if a:
            self.dict_update(o, a[0])
        for k, v in kw.items():
            self.dict_set(o, k, v)

    # ------------------------------------------------------------ list / tuple
    def lm_append(self, o, a, kw):
        self.seq_append(o, a[0])

    def lm_extend(self, o, a, kw):
        self.seq_extend(o, a[0])

    def lm_iadd(self, o, a, kw):
        self.seq_extend(o, a[0])
        return o

    def lm_len(self, o, a, kw):
        n = self.segs_len(self.iter_segs(o))
        return n if isinstance(n, int) else self.ival(n)

    def lm_getitem(self, o, a, kw):
        return self.getitem(o, a[0])

    def lm_contains(self, o, a, kw):
        return self.contains(o, a[0])

    def lm_iter(self, o, a, kw):
        return SegsV(self.iter_segs(o))

    def lm_add(self, o, a, kw):
        return self.binop('Add', o, a[0])

    def lm_copy(self, o, a, kw):
        return self.alloc(SeqCell(list, self.cell(o).segs))

    def lm_clear(self, o, a, kw):
        c = self.cell(o)
        self.heap[o.id] = SeqCell(c.cls, (), c.attrs)

    def lm_pop(self, o, a, kw):
        c = self.cell(o)
        if not c.segs:
            self.raise_py(IndexError, 'pop from empty list')
        i = self.narrow(a[0]) if a else -1
        if isinstance(c.segs[-1], Item) and i == -1 and isinstance(i, int):
            self.heap[o.id] = SeqCell(c.cls, c.segs[:-1], c.attrs)
            return c.segs[-1].v
        if all(isinstance(s, Item) for s in c.segs) and isinstance(i, int):
            if not -len(c.segs) <= i < len(c.segs):
                self.raise_py(IndexError, 'pop index out of range')
            segs = list(c.segs)
            it = segs.pop(i)
            self.heap[o.id] = SeqCell(c.cls, segs, c.attrs)
            return it.v
        raise Unsupported('pop from a symbolic sequence')

    def lm_insert(self, o, a, kw):
        c = self.cell(o)
        i = self.narrow(a[0])
        if i == 0 and isinstance(i, int):
            self.heap[o.id] = SeqCell(c.cls, (Item(a[1]),) + c.segs, c.attrs)
            return
        if all(isinstance(s, Item) for s in c.segs) and isinstance(i, int):
            segs = list(c.segs)
            segs.insert(i, Item(a[1]))
            self.heap[o.id] = SeqCell(c.cls, segs, c.attrs)
            return
        raise Unsupported('insert into a symbolic sequence')

    def lm_remove(self, o, a, kw):
        c = self.cell(o)
        if all(isinstance(s, Item) for s in c.segs):
            for i, s in enumerate(c.segs):
                if self.truth(self.eq(s.v, a[0])):
                    segs = list(c.segs)
                    del segs[i]
                    self.heap[o.id] = SeqCell(c.cls, segs, c.attrs)
                    return
            self.raise_py(ValueError, 'list.remove(x): x not in list')
        raise Unsupported('remove from a symbolic sequence')

    def lm_index(self, o, a, kw):
        segs = self.iter_segs(o)
        if all(isinstance(s, Item) for s in segs):
            for i, s in enumerate(segs):
                if self.truth(self.eq(s.v, a[0])):
                    return i
            self.raise_py(ValueError, 'not in list')
        raise Unsupported('index in a symbolic sequence')

    def lm_reverse(self, o, a, kw):
        c = self.cell(o)
        if all(isinstance(s, Item) for s in c.segs):
            self.heap[o.id] = SeqCell(c.cls, tuple(reversed(c.segs)), c.attrs)
            return
        raise Unsupported('reverse of a symbolic sequence')

    # ------------------------------------------------------------ set
    def sm_add(self, o, a, kw):
        self.set_add(o, a[0])

    def sm_update(self, o, a, kw):
        for x in a:
            x = self.narrow(x)
            self.iterate(x, lambda v: self.set_add(o, v))

    def sm_union(self, o, a, kw):
        c = self.cell(o)
        r = self.alloc(SetCell(set, c.items))
        self.sm_update(r, a, kw)
        return r

    def sm_discard(self, o, a, kw):
        c = self.cell(o)
        self.heap[o.id] = SetCell(c.cls, [x for x in c.items if not self.truth(self.eq(x, a[0]))], c.attrs)

    def sm_remove(self, o, a, kw):
        c = self.cell(o)
        if not self.contains(o, a[0]):
            self.raise_py(KeyError, a[0])
        self.sm_discard(o, a, kw)

    def sm_copy(self, o, a, kw):
        return self.alloc(SetCell(set, self.cell(o).items))

    def sm_contains(self, o, a, kw):
        return self.contains(o, a[0])

    def sm_len(self, o, a, kw):
        return len(self.cell(o).items)

    def sm_difference(self, o, a, kw):
        return self.set_op('Sub', self.cell(o), SetCell(set, [s.v for s in self.iter_segs(a[0])]))

    def sm_difference_update(self, o, a, kw):
        r = self.sm_difference(o, a, kw)
        self.heap[o.id] = SetCell(self.cell(o).cls, self.cell(r).items, self.cell(o).attrs)

    def sm_iter(self, o, a, kw):
        return SegsV(self.iter_segs(o))

    def sm_clear(self, o, a, kw):
        c = self.cell(o)
        self.heap[o.id] = SetCell(c.cls, (), c.attrs)

    # ============================================================ construction
    def instantiate(self, cls, args, kwargs, star=None):
        args = list(args)
        m = m_uuid if cls is uuid.UUID else self.models.get(cls)
        if m is not None:
            return m(self, args, kwargs)
        b = getattr(self, 'new_' + cls.__name__, None) if cls in BUILTIN_TYPES else None
        if b is not None:
            if star is not None:
                if cls is dict:
                    return self.alloc(DictCell(dict, self.cell(star).base, self.cell(star).writes))
                raise Unsupported('symbolic ** into builtin')
            return b(args, kwargs)
        meta = type(cls)
        d = self.class_lookup(meta, '__call__')
        if isinstance(d, (types.FunctionType, Func)):
            return self.call(d, [cls] + args, kwargs, star)
        return self.instantiate_plain(cls, args, kwargs, star)

    def instantiate_plain(self, cls, args, kwargs, star=None):
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            fields = cls._fields
            vals = list(args)
            for f in fields[len(args):]:
                if f not in kwargs:
                    self.raise_py(TypeError, 'missing namedtuple field')
                vals.append(kwargs[f])
            return Tup(vals, cls)
        if issubclass(cls, type):
            raise Unsupported('dynamic class construction')
        init = self.class_lookup(cls, '__init__')
        if issubclass(cls, (list, dict, set, tuple)):
            if isinstance(init, (types.FunctionType, Func)):
                if args or kwargs or star is not None:
                    raise Unsupported('__init__ of a container class')
            elif len(args) > 1 or kwargs and not issubclass(cls, dict) or star is not None and not issubclass(cls, dict):
                self.raise_py(TypeError, '%s takes at most 1 argument' % cls.__name__)
            if star is not None and (args or kwargs or not issubclass(cls, dict)):
                raise Unsupported('symbolic ** into a container class')
        r = self.alloc_for(cls, args)
        if star is not None and r is not None and issubclass(cls, dict):
            sc = self.cell(star)
            self.heap[r.id] = DictCell(cls, sc.base, sc.writes)
            return r
        if r is not None and kwargs and issubclass(cls, dict):
            for k, v in kwargs.items():
                self.dict_set(r, k, v)
            kwargs = {}
        if r is None:
            if all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values()) and star is None:
                try:
                    return self.lift(cls(*args, **kwargs))
                except Exception as e:
                    self.raise_py(type(e), str(e))
            return self.opaque_new(cls, args, kwargs)
        if isinstance(init, (types.FunctionType, Func)):
            self.call(init, [r] + list(args), kwargs, star)
        elif issubclass(cls, BaseException):
            self.raw_setattr(r, 'args', Tup(args))
        elif isinstance(self.cell(r), InstCell) and (args or kwargs or star is not None):
            self.raise_py(TypeError, '%s() takes no arguments' % cls.__name__)
        return r

    def alloc_for(self, cls, args):
        if issubclass(cls, BaseException):
            return self.alloc(InstCell(cls, {'args': Tup(args)}))
        if issubclass(cls, list):
            segs = self.iter_segs(args[0]) if args else ()
            return self.alloc(SeqCell(cls, segs))
        if issubclass(cls, dict):
            r = self.alloc(DictCell(cls))
            if args:
                self.dict_update(r, args[0])
            return r
        if issubclass(cls, set):
            r = self.alloc(SetCell(cls, ()))
            if args:
                self.iterate(args[0], lambda v: self.set_add(r, v))
            return r
        if issubclass(cls, tuple):
            segs = self.iter_segs(args[0]) if args else ()
            return self.alloc(SeqCell(cls, segs))
        if self.liftable(cls):
            return self.alloc(InstCell(cls, {}))
        return None

    def opaque_new(self, cls, args, kwargs):
        """A new object of a library class: opaque."""
        return self.opaque_op('new!' + cls.__name__, list(args) + list(kwargs.values()))

    # builtin constructors -------------------------------------------
    def new_int(self, args, kw):
        if not args:
            return 0
        v = self.narrow(args[0])
        if len(args) > 1:
            if is_native(v) and is_native(args[1]):
                try:
                    return int(v, args[1])
                except Exception as e:
                    self.raise_py(type(e), str(e))
            if isinstance(v, SStr):
                base = self.narrow(args[1])
                bt = self.as_num(base)[1]
                ok = z3.Function('intok', STR, INT, BOOL)(v.t, bt)
                if not self.branch(ok):
                    self.raise_py(ValueError, 'invalid literal')
                r = z3.Function('intof', STR, INT, INT)(v.t, bt)
                return SInt(r)
            self.raise_py(TypeError, "int() can't convert non-string with explicit base")
        if isinstance(v, SInt):
            return v
        if isinstance(v, SBool):
            return self.ival(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, SFl):
            if self.branch(v.t == FL.nan):
                self.raise_py(ValueError, 'cannot convert float NaN to integer')
            if self.branch(z3.Or(v.t == FL.pinf, v.t == FL.ninf)):
                self.raise_py(OverflowError, 'cannot convert float infinity to integer')
            r = FL.r(v.t)
            return self.ival(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
        if isinstance(v, SStr):
            ok = z3.Function('intok', STR, INT, BOOL)(v.t, z3.IntVal(10))
            if not self.branch(ok):
                self.raise_py(ValueError, 'invalid literal for int()')
            return SInt(z3.Function('intof', STR, INT, INT)(v.t, z3.IntVal(10)))
        if isinstance(v, SObj) and v.cls is None:
            return self.opaque_op('int', [v], int, (TypeError, ValueError, OverflowError))
        if is_native(v):
            try:
                return int(v)
            except Exception as e:
                self.raise_py(type(e), str(e))
        self.raise_py(TypeError, 'int() argument')

    def new_float(self, args, kw):
        if not args:
            return 0.0
        v = self.narrow(args[0])
        if isinstance(v, SFl):
            return v
        if isinstance(v, (SInt, SBool)):
            n = self.as_num(v)[1]
            if self.branch(z3.Or(n >= BIG, n <= -BIG)):
                self.raise_py(OverflowError, 'int too large to convert to float')
            return SFl(FL.fin(z3.ToReal(n)))
        if isinstance(v, SStr):
            ok = z3.Function('floatok', STR, BOOL)(v.t)
            if not self.branch(ok):
                self.raise_py(ValueError, 'could not convert string to float')
            return SFl(z3.Function('floatof', STR, FL)(v.t))
        if isinstance(v, SObj) and v.cls is None:
            return self.opaque_op('float', [v], float, (TypeError, ValueError, OverflowError))
        if is_native(v):
            try:
                return float(v)
            except Exception as e:
                self.raise_py(type(e), str(e))
        self.raise_py(TypeError, 'float() argument')

    def new_complex(self, args, kw):
        if len(args) == 2 and not kw:
            ps = [self.narrow(x) for x in args]
            if all(is_native(x) and isinstance(x, (int, float, complex)) for x in ps):
                return complex(*ps)
            if not all(isinstance(x, (SFl, float, SInt, SBool, int)) for x in ps):
                raise Unsupported('complex of two values')
            fs = [self.new_float([x], {}) for x in ps]
            return SCx(*[self.as_num(f)[1] for f in fs])
        if len(args) > 1 or kw:
            raise Unsupported('complex with keywords')
        v = self.narrow(args[0]) if args else 0j
        if isinstance(v, SCx):
            return v
        z = FL.fin(z3.RealVal(0))
        if isinstance(v, SFl):
            return SCx(v.t, z)
        if isinstance(v, (SInt, SBool)):
            f = self.new_float([v], {})
            return SCx(f.t, z) if isinstance(f, SFl) else complex(f)
        if isinstance(v, SStr):
            ok = z3.Function('complexok', STR, BOOL)(v.t)
            if not self.branch(ok):
                self.raise_py(ValueError, 'complex() arg is a malformed string')
            return SCx(z3.Function('complexre', STR, FL)(v.t), z3.Function('complexim', STR, FL)(v.t))
        if isinstance(v, SObj) and v.cls is None:
            return self.opaque_op('complex', [v], complex, (TypeError, ValueError, OverflowError))
        if is_native(v):
            try:
                return complex(v)
            except Exception as e:
                self.raise_py(type(e), str(e))
        self.raise_py(TypeError, 'complex() argument')

    def new_bool(self, args, kw):
        if not args:
            return False
        v = self.narrow(args[0])
        if isinstance(v, SObj) and v.cls is None:
            return self.opaque_op('bool', [v], bool, (ValueError,))
        t = self.truth_term(v)
        return t if isinstance(t, bool) else self.bval(t)

    def new_str(self, args, kw):
        if not args:
            return ''
        v = self.narrow(args[0])
        if isinstance(v, (str, SStr)):
            return v
        if is_native(v) and isinstance(v, SCALARS):
            return str(v)
        if isinstance(v, SFl):
            for special, text in ((FL.nan, 'nan'), (FL.pinf, 'inf'), (FL.ninf, '-inf')):
                if self.branch(v.t == special):
                    return text
            # str of a finite float is read back by float
            t = z3.Function('strof', V, STR)(self.enc(v))
            self.fact(z3.And(z3.Function('floatok', STR, BOOL)(t), z3.Function('floatof', STR, FL)(t) == v.t))
            return SStr(t)
        n = self.as_num(v)
        if n is not None:
            t = z3.Function('strof', V, STR)(self.enc(v))
            if isinstance(v, SCx):
                # str of a complex number is read back by complex
                self.fact(z3.And(z3.Function('complexok', STR, BOOL)(t), z3.Function('complexre', STR, FL)(t) == v.re,
                                 z3.Function('complexim', STR, FL)(t) == v.im))
            return SStr(t)
        if isinstance(v, SObj):
            t = z3.Function('strof', V, STR)(self.enc(v))
            if v.cls is uuid.UUID:
                # str of a UUID is read back by UUID, whose values are taken to be equal exactly when identical
                self.fact(z3.And(z3.Length(t) == 36, z3.Not(z3.Function('uuid.bad', STR, BOOL)(t)), z3.Function('uuidof', STR, INT)(t) == v.oid))
            return SStr(t)
        return self.opaque_str('str')

    def new_list(self, args, kw):
        r = self.alloc(SeqCell(list, ()))
        if args:
            self.seq_extend(r, args[0])
        return r

    def new_tuple(self, args, kw):
        if not args:
            return Tup([])
        v = self.narrow(args[0])
        if isinstance(v, Tup) and v.cls is tuple:
            return v
        segs = self.iter_segs(v)
        if all(isinstance(s, Item) for s in segs):
            return Tup([s.v for s in segs])
        return self.alloc(SeqCell(tuple, segs))

    def new_dict(self, args, kw):
        r = self.alloc(DictCell(dict))
        if args:
            self.dict_update(r, args[0])
        for k, v in kw.items():
            self.dict_set(r, k, v)
        return r

    def new_OrderedDict(self, args, kw):
        r = self.new_dict(args, kw)
        c = self.cell(r)
        self.heap[r.id] = DictCell(collections.OrderedDict, c.base, c.writes)
        return r

    def new_set(self, args, kw):
        r = self.alloc(SetCell(set, ()))
        if args:
            self.iterate(args[0], lambda v: self.set_add(r, v))
        return r

    def new_frozenset(self, args, kw):
        r = self.alloc(SetCell(frozenset, ()))
        if args:
            self.iterate(args[0], lambda v: self.set_add(r, v))
        return r

    def new_type(self, args, kw):
        if len(args) == 1:
            v = self.narrow(args[0])
            if isinstance(v, SObj) and v.cls is None:
                return self.getattr_(v, '__class__')
            return self.class_of(v)
        raise Unsupported('dynamic class construction')

    def new_object(self, args, kw):
        return self.alloc(InstCell(object, {}))

    def new_property(self, args, kw):
        g = lambda i, n: args[i] if len(args) > i else kw.get(n)
        return PropObj(g(0, 'fget'), g(1, 'fset'), g(2, 'fdel'))

    def new_super(self, args, kw):
        return SuperV(args[0], args[1])

    def new_enumerate(self, args, kw):
        segs = self.iter_segs(args[0])
        start = args[1] if len(args) > 1 else kw.get('start', 0)
        out = []
        off = z3.IntVal(start) if isinstance(start, int) else self.as_num(start)[1]
        for s in segs:
            if isinstance(s, Item):
                out.append(Item(Tup([self.ival(off), s.v])))
                off = z3.simplify(off + 1)
            elif isinstance(s, ISeg) and all(len(g) == 1 and isinstance(g[0], Item) for c, g in s.alts):
                out.append(ISeg(s.k, s.n, [(c, (Item(Tup([SInt(off + s.k), g[0].v])),)) for c, g in s.alts]))
                off = z3.simplify(off + s.n)
            else:
                raise Unsupported('enumerate of a filtered sequence')
        return SegsV(out)

    def new_zip(self, args, kw):
        ss = [self.iter_segs(a) for a in args]
        if all(all(isinstance(s, Item) for s in x) for x in ss):
            return SegsV([Item(Tup(t)) for t in zip(*[[s.v for s in x] for x in ss])])
        if all(len(x) == 1 and isinstance(x[0], ISeg) and
               all(len(g) == 1 and isinstance(g[0], Item) for c, g in x[0].alts) for x in ss):
            b = z3.Const(self.uniq('zb'), INT)
            n = ss[0][0].n
            for x in ss[1:]:
                n = z3.If(x[0].n < n, x[0].n, n)
            alts = [(z3.BoolVal(True), ())]
            for x in ss:
                s = x[0]
                alts = [(z3.And(c0, z3.substitute(c, (s.k, b))), vs + (subst(g[0].v, [(s.k, b)], self),))
                        for c0, vs in alts for c, g in s.alts]
            return SegsV([ISeg(b, n, [(c, (Item(Tup(vs)),)) for c, vs in alts])])
        if any(len(x) == 0 for x in ss):
            return SegsV([])
        raise Unsupported('zip of differently shaped sequences')

    def new_range(self, args, kw):
        a = [self.narrow(x) for x in args]
        if all(isinstance(x, int) for x in a):
            return SegsV([Item(i) for i in range(*a)])
        if len(a) == 1:
            b = z3.Const(self.uniq('rb'), INT)
            n = self.as_num(a[0])[1]
            return SegsV([ISeg(b, n, [(z3.BoolVal(True), (Item(SInt(b)),))])])
        raise Unsupported('range with symbolic start')

    def new_map(self, args, kw):
        r = self.alloc(SeqCell(list, ()))
        self.iterate(args[1], lambda x: self.seq_append(r, self.call(args[0], [x], {})))
        return SegsV(self.cell(r).segs)

    def new_filter(self, args, kw):
        r = self.alloc(SeqCell(list, ()))

        def one(x):
            if self.truth(x if args[0] is None else self.call(args[0], [x], {})):
                self.seq_append(r, x)
        self.iterate(args[1], one)
        return SegsV(self.cell(r).segs)

    def new_reversed(self, args, kw):
        segs = self.iter_segs(args[0])
        if all(isinstance(s, Item) for s in segs):
            return SegsV(reversed(segs))
        if len(segs) == 1 and isinstance(segs[0], ISeg):
            s = segs[0]
            b = z3.Const(self.uniq('vb'), INT)
            p = [(s.k, s.n - 1 - b)]
            return SegsV([ISeg(b, s.n, [(z3.substitute(c, *p), tuple(reversed(subst_segs(g, p, self))))
                                        for c, g in s.alts])])
        raise Unsupported('reversed symbolic sequence')

    def new_slice(self, args, kw):
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return Tup(a, slice)

    # ============================================================ builtin functions
    def call_builtin(self, f, args, kwargs):
        m = FUNCS.get(f) if f.__hash__ else None
        mod = getattr(f, '__module__', None)
        nm = getattr(f, '__name__', None)
        if m is not None:
            self.stats.libs.add('%s.%s' % (mod or type(f).__module__, getattr(f, '__qualname__', nm)))
            return m(self, list(args), kwargs)
        if nm == '__new__' and args and isinstance(args[0], type):
            return self.alloc_for(args[0], []) or self.unsupported('__new__ of %s' % args[0].__name__)
        if isinstance(f, types.BuiltinFunctionType) and getattr(f, '__self__', None) is not None and \
                not isinstance(f.__self__, types.ModuleType):
            return self.builtin_method(self.lift(f.__self__), f.__name__, list(args), kwargs)
        if (mod, nm) in PURE_NATIVE and all(is_native(a) for a in args) and all(is_native(a) for a in kwargs.values()):
            self.stats.libs.add('%s.%s' % (mod, nm))
            try:
                return self.lift(f(*args, **kwargs))
            except Exception as e:
                self.raise_py(type(e), str(e))
        raise Unsupported('call of %s.%s' % (mod, nm))

    def unsupported(self, why):
        raise Unsupported(why)


BUILTIN_TYPES = {int, float, complex, bool, str, list, tuple, dict, set, frozenset, type, object, property,
                 super, enumerate, zip, range, map, filter, reversed, slice, collections.OrderedDict}
PURE_NATIVE = {('math', 'isnan'), ('math', 'isinf'), ('builtins', 'ord'), ('builtins', 'chr'), ('re', 'compile'),
               ('math', 'floor'), ('math', 'ceil')}

FUNCS = {}


def model(*fs):
    def deco(g):
        for f in fs:
            FUNCS[f] = g
        return g
    return deco


@model(uuid.uuid4)
def m_uuid4(e, a, kw):
    # some UUID; nothing is assumed about its text but its length, not even that it is new
    o = e.fresh('uuid4', INT)
    e.fact(z3.And(o > 3000, o < ALLOC_BASE))
    r = SObj(uuid.UUID, o)
    e.fact(z3.Length(z3.Function('strof', V, STR)(e.enc(r))) == 36)
    return r


def m_uuid(e, a, kw):
    # an uninterpreted function of the text, or ValueError
    v = e.narrow(a[0]) if len(a) == 1 and not kw else None
    if isinstance(v, str):
        try:
            return e.lift(uuid.UUID(v))
        except ValueError as x:
            e.raise_py(ValueError, str(x))
    if not isinstance(v, SStr):
        raise Unsupported('UUID')
    if e.branch(z3.Function('uuid.bad', STR, BOOL)(v.t)):
        e.raise_py(ValueError, 'badly formed hexadecimal UUID string')
    t = z3.Function('uuidof', STR, INT)(v.t)
    e.fact(z3.And(t > 3000, t < ALLOC_BASE))
    return SObj(uuid.UUID, t)


@model(urllib.parse.urlparse)
def m_urlparse(e, a, kw):
    # the parts of a text are uninterpreted functions of it; a text may be rejected with ValueError
    raise_or = len(a) == 1 and not kw
    v = e.narrow(a[0]) if raise_or else None
    if isinstance(v, str):
        try:
            return e.lift(urllib.parse.urlparse(v))
        except ValueError as x:
            e.raise_py(ValueError, str(x))
    if not isinstance(v, SStr):
        raise Unsupported('urlparse')
    if e.branch(z3.Function('urlbad', STR, BOOL)(v.t)):
        e.raise_py(ValueError, 'not a URL')
    return Tup([SStr(z3.Function('url.' + k, STR, STR)(v.t)) for k in urllib.parse.ParseResult._fields],
               urllib.parse.ParseResult)


@model(urllib.parse.urlunparse)
def m_urlunparse(e, a, kw):
    v = e.narrow(a[0])
    xs = [e.narrow(x) for x in v.items] if isinstance(v, Tup) and len(v.items) == 6 else [None]
    if not all(isinstance(x, (str, SStr)) for x in xs):
        raise Unsupported('urlunparse')
    if all(isinstance(x, str) for x in xs):
        return urllib.parse.urlunparse(xs)
    return SStr(z3.Function('urlunparse', *[STR] * 7)(*[e.strt(x) for x in xs]))


def m_strptime(e, a, kw):
    # an uninterpreted function of text and format, or ValueError
    a = [e.narrow(x) for x in a]
    if len(a) != 2 or kw or not all(isinstance(x, (str, SStr)) for x in a):
        raise Unsupported('strptime')
    if all(isinstance(x, str) for x in a):
        try:
            return datetime.datetime.strptime(*a)
        except ValueError as x:
            e.raise_py(ValueError, str(x))
    ts = [e.strt(x) for x in a]
    if e.branch(z3.Function('strptime.bad', STR, STR, BOOL)(*ts)):
        e.raise_py(ValueError, 'does not match format')
    t = z3.Function('strptime', STR, STR, INT)(*ts)
    e.fact(z3.And(t > 3000, t < ALLOC_BASE))
    return SObj(datetime.datetime, t)


@model(len)
def m_len(e, a, kw):
    v = e.narrow(a[0])
    if isinstance(v, Tup):
        return len(v.items)
    if isinstance(v, (str, bytes)):
        return len(v)
    if isinstance(v, SStr):
        return e.ival(e.strlen(v.t))
    if isinstance(v, Ref):
        c = e.cell(v)
        if isinstance(c, SeqCell):
            n = e.segs_len(c.segs)
            return n if isinstance(n, int) else e.ival(n)
        if isinstance(c, SetCell):
            return len(c.items)
        if isinstance(c, DictCell):
            n = e.dict_len(v)
            return n if isinstance(n, int) else e.ival(n)
        d = e.class_lookup(c.cls, '__len__')
        if d is not MISSING:
            return e.call(d, [v], {})
    if isinstance(v, SObj) and v.cls is None:
        return e.opaque_op('len', [v], int, (TypeError,))
    if isinstance(v, SObj):
        d = e.class_lookup(v.cls, '__len__')
        if isinstance(d, (types.FunctionType, Func)):
            return e.call(d, [v], {})
        if d is not MISSING:
            raise Unsupported('len of an abstract %s' % v.cls.__name__)
    if isinstance(v, DictView):
        n = e.dict_len(v.ref)
        return n if isinstance(n, int) else e.ival(n)
    e.raise_py(TypeError, 'object has no len()')


@model(isinstance)
def m_isinstance(e, a, kw):
    return e.isinstance_(a[0], a[1])


@model(issubclass)
def m_issubclass(e, a, kw):
    c = e.narrow(a[0])
    cs = e.flatten_classes(a[1])
    if isinstance(c, SObj):
        f = lambda d: z3.Function('issub!' + d.__module__ + '.' + d.__qualname__, INT, BOOL)(c.oid) \
            if isinstance(d, type) else z3.Function('issub_sym', INT, INT, BOOL)(c.oid, d.oid)
        return e.bval(disj([f(d) for d in cs]))
    if isinstance(c, Opaque) and c.name == 'exception class':
        raise Unsupported('issubclass of exception class')
    if not isinstance(c, type):
        e.raise_py(TypeError, 'issubclass() arg 1 must be a class')
    return any(isinstance(d, type) and e.issub(c, d) for d in cs)


@model(hasattr)
def m_hasattr(e, a, kw):
    nm = e.narrow(a[1])
    if isinstance(nm, str):
        if e.narrow(a[0]) is None and not hasattr(None, nm):
            return False
    try:
        v = e.getattr_(a[0], nm, MISSING) if not isinstance(nm, str) else e.getattr0(a[0], nm)
    except PyExc as x:
        if e.exc_isinstance(x.val, AttributeError):
            return False
        raise
    return v is not MISSING


@model(getattr)
def m_getattr(e, a, kw):
    if len(a) == 2:
        return e.getattr_(a[0], a[1])
    try:
        v = e.getattr_(a[0], a[1], a[2])
    except PyExc as x:
        if e.exc_isinstance(x.val, AttributeError):
            return a[2]
        raise
    return v


@model(vars)
def m_vars(e, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported('vars()')
    try:
        return e.getattr_(a[0], '__dict__')
    except PyExc as x:
        if e.exc_isinstance(x.val, AttributeError):
            e.raise_py(TypeError, 'vars() argument must have __dict__ attribute')
        raise


@model(setattr)
def m_setattr(e, a, kw):
    e.setattr_(a[0], a[1], a[2])


@model(object.__setattr__)
def m_osetattr(e, a, kw):
    e.raw_setattr(a[0], a[1], a[2])


@model(delattr)
def m_delattr(e, a, kw):
    e.delattr_(a[0], a[1])


@model(callable)
def m_callable(e, a, kw):
    v = e.narrow(a[0])
    if isinstance(v, (Func, BMeth, NMeth, UMeth)):
        return True
    if isinstance(v, Ref):
        return e.class_lookup(e.cell(v).cls, '__call__') is not MISSING
    if isinstance(v, SObj):
        if v.cls is not None:
            return v.cls is type or e.class_lookup(v.cls, '__call__') is not MISSING
        return e.bval(z3.Function('callable', INT, BOOL)(v.oid))
    if isinstance(v, Val):
        return False
    return callable(v)


@model(abs)
def m_abs(e, a, kw):
    v = e.narrow(a[0])
    if is_native(v):
        try:
            return abs(v)
        except TypeError as x:
            e.raise_py(TypeError, str(x))
    n = e.as_num(v)
    if n is None:
        if isinstance(v, SObj) and v.cls is None:
            return e.opaque_op('abs', [v])
        e.raise_py(TypeError, 'bad operand type for abs()')
    if n[0] == 'i':
        return e.ival(z3.If(n[1] >= 0, n[1], -n[1]))
    if n[0] == 'f':
        x = n[1]
        return SFl(z3.If(FL.is_fin(x), FL.fin(z3.If(FL.r(x) >= 0, FL.r(x), -FL.r(x))),
                         z3.If(x == FL.nan, FL.nan, FL.pinf)))
    e.taint += ('complex abs',)
    r = e.fresh('cabs', FL)
    return SFl(r)


@model(any)
def m_any(e, a, kw):
    def body(v):
        if e.truth(v):
            raise BreakEx()
    return not e.iterate(a[0], body)


@model(all)
def m_all(e, a, kw):
    def body(v):
        if not e.truth(v):
            raise BreakEx()
    return e.iterate(a[0], body)


@model(sorted)
def m_sorted(e, a, kw):
    segs = e.iter_segs(a[0])
    if all(isinstance(s, Item) for s in segs) and not kw:
        its = [e.narrow(s.v) for s in segs]
        if all(is_native(x) for x in its):
            return e.lift(sorted(its))
        if len(its) <= 1:
            return e.alloc(SeqCell(list, segs))
    raise Unsupported('sorted of symbolic values')


@model(min, max)
def m_minmax(e, a, kw):
    raise Unsupported('min/max')


@model(sum)
def m_sum(e, a, kw):
    segs = e.iter_segs(a[0])
    if all(isinstance(s, Item) for s in segs):
        r = 0
        for s in segs:
            r = e.binop('Add', r, s.v)
        return r
    raise Unsupported('sum')


@model(repr, ascii, format)
def m_repr(e, a, kw):
    return e.opaque_str('repr')


@model(hash)
def m_hash(e, a, kw):
    e.hashable(a[0])
    return SInt(z3.Function('hash', V, INT)(e.enc(a[0])))


@model(id)
def m_id(e, a, kw):
    return SInt(V.o(e.enc(a[0])))


@model(iter)
def m_iter(e, a, kw):
    v = e.narrow(a[0])
    if isinstance(v, GenV):
        return v
    return SegsV(e.iter_segs(v))


@model(next)
def m_next(e, a, kw):
    v = e.narrow(a[0])
    if isinstance(v, GenV):
        cell = []

        class _Stop(Exception):
            pass
        got = []

        def body(x):
            raise BreakEx(x)
        fr = e.alloc(EnvCell({}))

        def body2(x):
            e.heap[fr.id] = EnvCell({'v': x})
            raise BreakEx()
        if e.iterate(v, body2):
            if len(a) > 1:
                return a[1]
            e.raise_py(StopIteration)
        return e.force(e.heap[fr.id].vars['v'])
    segs = e.iter_segs(v)
    if segs and isinstance(segs[0], Item):
        return segs[0].v
    if not segs:
        if len(a) > 1:
            return a[1]
        e.raise_py(StopIteration)
    raise Unsupported('next')


@model(round)
def m_round(e, a, kw):
    v = e.narrow(a[0])
    if is_native(v):
        return round(v, *a[1:])
    e.taint += ('round',)
    return SInt(e.fresh('round', INT))


@model(print)
def m_print(e, a, kw):
    return None


def numpy_functions():
    try:
        import numpy
    except ImportError:
        return {}
    return {k: (getattr(numpy, k),) for k in ('isnan', 'isinf', 'isfinite')}


NUMPY = numpy_functions()


def one_number(e, a, kw):
    # numpy's functions coincide with math's on single numbers only
    if len(a) != 1 or kw or e.as_num(e.narrow(a[0])) is None:
        raise Unsupported('isnan and the like of no single number')


@model(math.isnan, *NUMPY.get('isnan', ()))
def m_isnan(e, a, kw):
    one_number(e, a, kw)
    f = e.new_float([a[0]], {})
    if is_native(f):
        return math.isnan(f)
    return e.bval(f.t == FL.nan)


@model(math.isinf, *NUMPY.get('isinf', ()))
def m_isinf(e, a, kw):
    one_number(e, a, kw)
    f = e.new_float([a[0]], {})
    if is_native(f):
        return math.isinf(f)
    return e.bval(z3.Or(f.t == FL.pinf, f.t == FL.ninf))


@model(math.isfinite, *NUMPY.get('isfinite', ()))
def m_isfinite(e, a, kw):
    one_number(e, a, kw)
    f = e.new_float([a[0]], {})
    if is_native(f):
        return math.isfinite(f)
    return e.bval(FL.is_fin(f.t))


@model(warnings.warn)
def m_warn(e, a, kw):
    if e.ghost.get('log_warn'):
        cat = a[1] if len(a) > 1 else kw.get('category', UserWarning)
        e.seq_append(e.trace, Tup(['warn', cat]))
    return None


def _six(name):
    def f(e, a, kw):
        return e.call(e.getattr_(a[0], {'iteritems': 'items', 'itervalues': 'values', 'iterkeys': 'keys'}[name]), [], {})
    return f


for _n in ('iteritems', 'itervalues', 'iterkeys'):
    FUNCS[getattr(six, _n)] = _six(_n)


@model(functools.wraps)
def m_wraps(e, a, kw):
    return Opaque('identity_decorator')

