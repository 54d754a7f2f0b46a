"""Snippets for difftest.py."""
from collections import OrderedDict
import functools
import six


class P(object):
    kind = 'P'

    def __init__(self, v=0):
        self.v = v

    def __eq__(self, other):
        if not isinstance(other, P):
            return NotImplemented
        return self.v == other.v

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__

    def __len__(self):
        return self.v

    def who(self):
        return 'P.who'

    @property
    def double(self):
        return self.v * 2

    @double.setter
    def double(self, d):
        self.v = d // 2

    @staticmethod
    def st(a):
        return a + 1

    @classmethod
    def cl(cls, a):
        return cls.kind + str(a)


class Q(P):
    kind = 'Q'

    def __eq__(self, other):
        return 'Q' if isinstance(other, P) else NotImplemented

    __hash__ = object.__hash__

    def who(self):
        return 'Q>' + super(Q, self).who()


class B(object):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return self.t

    def __contains__(self, x):
        return x == 5

    def __getitem__(self, i):
        if i > 3:
            raise IndexError(i)
        return i * 10

    def __call__(self, *a, **k):
        return len(a) * 10 + len(k)

    def __getattr__(self, name):
        if name.startswith('g'):
            return name
        raise AttributeError(name)


class It(object):
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return iter(list(range(self.n)))


class Ctx(object):
    def __init__(self, log, swallow):
        self.log, self.swallow = log, swallow

    def __enter__(self):
        self.log.append('in')
        return self

    def __exit__(self, t, v, tb):
        self.log.append(t.__name__ if t else 'out')
        return self.swallow


def arith(x, y):
    return [x + y, x - y, x * y, -x, abs(x), x == y, x < y, x <= y, x != y]


def division(x, y):
    return [x // y, x % y, divmod(x, y)]


def truediv(x, y):
    return x / y


def chain(x, y):
    return [0 < x < y, x < y < 10, 0 <= x <= y != 3, not x < y]


def boolops(x, y):
    return [x and y, x or y, not x, x and 'yes' or 'no', (x or 'd'), bool(x), x if y else 'else']


def mixed(x, y):
    return [x == y, x is y, x in (y, 1), isinstance(x, int), isinstance(x, (str, bool)), x == 1, x == True]


def strings(s):
    return [s.upper(), s.lower(), s + 'z', len(s), s == 'ab', 'b' in s, s.startswith('a'), s.endswith('c'), s * 2, s[:1], s[1:], s[-1:], s[::-1] if len(s) < 3 else s]


def stripping(s):
    return [s.strip(), s.lstrip(), s.rstrip(), s.strip('x')]


def indexing(s, i):
    return s[i]


def slicing(l, i):
    return [l[i:], l[:i], l[-i:], l[i:i + 1], l[:-1]]


def listops(l, v):
    m = list(l)
    m.append(v)
    m.extend([v, 1])
    m.insert(0, 7)
    l2 = m + [3]
    return [m, l2, len(m), v in l, m[0], m[-1], m is l, m == l, m.count(v)]


def listpop(l, i):
    l.pop(i)
    return l


def listrem(l, v):
    l.remove(v)
    return l


def listset(l, i, v):
    l[i] = v
    return l


def listidx(l, v):
    return l.index(v)


def listrev(l):
    a = list(reversed(l))
    l.reverse()
    return [a, l, l == a]


def loops(l):
    out, n = [], 0
    for i, v in enumerate(l):
        if v == 0:
            continue
        if v > 5:
            out.append('big')
            break
        out.append(v)
        n += v
    else:
        out.append('all')
    return [out, n]


def whiles(n):
    i = out = 0
    while i < 4:
        i += 1
        if i == n:
            break
        out += i
    else:
        out += 100
    return [i, out]


def comps(l):
    return [[v + 1 for v in l if v > 1], {v: i for i, v in enumerate(l)}, sum(v for v in l), any(v == 2 for v in l),
            all(v > 0 for v in l), [a + b for a, b in zip(l, l[1:])], sorted(l), [v for v in l for _ in (0, 1)]]


def folds(l):
    return [max(l), min(l), sum(l), len(l), sum(l, 10)]


def anyall(l):
    return [any(v > 3 for v in l), all(v > 3 for v in l), any(l), all(l)]


def dicts(k, v):
    d = {'a': 1, 'b': 2}
    d[k] = v
    e = dict(d, c=3)
    e.update({k: 0})
    return [d.get(k), d.get('zz'), d.get('zz', 5), k in d, len(d), list(d), list(d.values()), list(d.items()), sorted(e), d == {'a': 1, 'b': 2},
            d.setdefault('q', 9), d.setdefault(k, 8), list(e)]


def dictpop(k):
    d = OrderedDict([('a', 1), ('b', 2), ('c', 3)])
    x = d.pop(k)
    return [x, list(d.items())]


def dictpopd(k):
    d = {'a': 1}
    return [d.pop(k, 'none'), d]


def dictdel(k):
    d = {'a': 1, 'b': 2}
    del d[k]
    return d


def dictkey(k):
    return {'a': 1, 1: 'one', True: 'true'}[k]


def dictmutkey(k, j):
    d = {}
    d[k] = 1
    d[j] = 2
    return [len(d), d]


def dictloop(k):
    out = []
    for key, val in six.iteritems({'a': 1, k: 2}):
        out.append((key, val))
    return out


def sets(x, y):
    s = {x, y, 1}
    s.add(2)
    s.discard(9)
    return [len(s), x in s, 5 in s, s == {1, 2, x, y}, s | {3} == {1, 2, 3, x, y}, s - {x} == ({1, 2, y} - {x})]


def tuples(x, y):
    a, (b, c) = x, (y, 3)
    a, b = b, a
    t = (a, b) + (c,)
    return [t, t[0], len(t), t == (y, x, 3), t[1:], x in t, t.index(3)]


def star(l):
    a, b = l
    return [a, b]


def tryflow(x):
    out = []
    try:
        out.append('try')
        if x == 1:
            raise ValueError('v')
        if x == 2:
            raise KeyError('k')
        if x == 3:
            return out + ['returned']
    except ValueError as e:
        out.append(str(e))
    except (KeyError, IndexError):
        out.append('key')
    else:
        out.append('else')
    finally:
        out.append('finally')
    return out


def tryfin(x):
    for i in (1, 2, 3):
        try:
            if i == x:
                return 'r%d' % i
            if i == 2:
                continue
        finally:
            if x == 7:
                return 'f'
    return 'end'


def nested(x):
    try:
        try:
            if x:
                raise TypeError('a')
        except ValueError:
            return 'no'
        finally:
            x = x + 1
    except TypeError:
        return x
    return -x


def reraise(x):
    try:
        try:
            raise ValueError(x)
        except ValueError:
            if x > 1:
                raise
            raise KeyError(x)
    except LookupError:
        return 'lookup'


def uncaught(x):
    if x == 1:
        raise KeyError('x')
    if x == 2:
        return {}['a']
    if x == 3:
        return None + 1
    if x == 4:
        return (1).nothing
    if x == 5:
        return undefined_name                               # noqa
    if x == 6:
        return int('x')
    if x == 7:
        return [][0]
    return 'fine'


def closures(x):
    n = x

    def inc(by=1):
        return n + by

    def outer():
        out = []

        def add(v):
            out.append(v + n)
            return out
        return add
    n = x + 10
    add = outer()
    add(1)
    return [inc(), inc(2), inc(by=3), add(2), (lambda a, b=n: a + b)(1)]


def calls(x):
    def f(a, b=2, *rest, **kw):
        return [a, b, list(rest), sorted(kw.items())]
    kw = {'k': x}
    return [f(x), f(x, 3), f(1, 2, x, 4), f(x, k=1), f(*[1, x], **kw), f(b=1, a=x), f(x, *(), **{})]


def badcall(x):
    def f(a, b):
        return a + b
    if x == 0:
        return f(1)
    if x == 1:
        return f(1, 2, 3)
    if x == 2:
        return f(1, a=2)
    if x == 3:
        return f(1, c=2)
    return f(b=x, a=1)


def objects(x):
    p, q = P(x), Q(x)
    p.new = 5
    q.double = 20
    return [p.v, p.double, q.v, p.who(), q.who(), P.st(x), Q.cl(x), p.cl(1), p.kind, P.kind, q.kind, p.new, hasattr(q, 'new'),
            isinstance(q, P), isinstance(p, Q), type(q) is Q, type(q).__name__, len(p), bool(p), getattr(p, 'nope', 7), p.__class__ is P]


def attrs(n):
    p = P(1)
    setattr(p, n, 5)
    out = [getattr(p, n), n in p.__dict__, sorted(p.__dict__)]
    delattr(p, n)
    out.append(hasattr(p, n))
    return out


def noattr(n):
    return getattr(P(1), n)


def eqs(x, y):
    p, q = P(x), Q(y)
    return [p == P(y), p != P(y), p == 3, 3 == p, p == q, q == p, p == None, q == 'x', p in [P(y)], p is p, q != p]   # noqa


def special(x):
    b = B(x > 0)
    return [bool(b), not b, 5 in b, 6 in b, b[2], b(), b(1, x, k=2), 'y' if b else 'n']


def special2(x):
    return [v for v in B(x)]


def special3(x):
    return B(x).gone


def special4(x):
    return [hasattr(B(x), 'other'), hasattr(B(x), 'gone'), getattr(B(x), 'other', 5)]


def objects2(x):
    q = Q(x)
    q.double = 20
    return [q.v, q.double, hasattr(q, 'new')]


def objects3(x):
    p, q = P(x), Q(x)
    p.new = 5
    return [isinstance(q, P), isinstance(p, Q), type(q) is Q, type(q).__name__, p.__class__ is P, p.kind, P.kind, q.kind, p.new]


def objects4(x):
    p, q = P(x), Q(x)
    return [p.who(), q.who(), P.st(x)]


def objects5(x):
    p, q = P(x), Q(x)
    return [Q.cl(x), p.cl(1), getattr(p, 'nope', 7), len(p), bool(p)]


def infs(x):
    return [abs(x) < 1e300, x > 0]


def iters(n):
    return [list(It(n)), [v for v in It(n)], tuple(It(n)), sum(It(n)), max(It(n)) if n else None, 1 in It(n), dict.fromkeys(It(n), 0), set(It(n)) == set(range(n))]


def withs(x, s):
    log = []
    try:
        with Ctx(log, s) as c:
            log.append(c.swallow)
            if x == 1:
                raise ValueError('x')
            if x == 2:
                return log
        log.append('after')
    except ValueError:
        log.append('caught')
    return log


def fmt(x, s):
    return ['{}'.format(x), '{} {}'.format(x, s), '%d' % x, '%s' % s, str(x), '{a}'.format(a=s), s + str(x)]


def conv(s):
    return int(s)


def convf(x):
    return [int(x), float(x), bool(x), int(x) == x, x == float(x)]


def joins(l):
    return ', '.join(str(v) for v in l)


def augment(x, l):
    a = l
    a += [x]
    b = l
    b = b + [x]
    x += 1
    x *= 2
    return [a is l, l, b, x]


def aliasing(l):
    m = l
    c = list(l)
    m.append(9)
    d = {'l': l}
    d['l'].append(8)
    return [l, c, m is l, d['l'] is l]


def defaults(x):
    def f(a=[]):                # noqa
        a.append(x)
        return list(a)
    return [f(), f(), f([0])]


def ternary(x):
    return 'neg' if x < 0 else 'zero' if x == 0 else 'pos'


def scopes(x):
    y = 1

    def g():
        y = x
        return y
    return [g(), y]


def sorting(l):
    return [sorted(l), sorted(l, reverse=True), sorted(l, key=lambda v: -v), sorted(l) == l]


def zips(l):
    return [list(zip(l, 'abc')), list(enumerate(l)), list(range(len(l))), list(map(lambda v: v + 1, l)), list(filter(lambda v: v > 1, l))]


def isinst(v):
    return [isinstance(v, t) for t in (int, float, str, bool, list, tuple, dict, type(None), object)] + [callable(v), hasattr(v, '__iter__'), hasattr(v, 'upper')]


def numbers(x, y):
    return [x == y, x < y, x + y, x * y, max(x, y), min(x, y), -x, x >= y]


def floats(x):
    return [x == x, x != x, x > 0, x < 0, x == int(x) if abs(x) < 1e300 else 'big', abs(x), round(x) if abs(x) < 1e300 else 'big']


def dels(x):
    l = [1, 2, 3]
    del l[x]
    y = x
    del y
    try:
        return y                # noqa
    except NameError:
        return l


def generators(l):
    def gen(vs):
        for v in vs:
            if v:
                yield v * 2
    return [list(gen(l)), sum(gen(l))]


def partials(x):
    def f(a, b, c=0):
        return [a, b, c]
    return [functools.partial(f, x)(2), functools.partial(f, c=x)(1, 2)]


def earlyexit(l, v):
    for i, w in enumerate(l):
        if w == v:
            return i
    return -1


def firstbad(l):
    out = []
    for w in l:
        out.append(w)
        if w < 0:
            raise ValueError('neg')
    return out


def carry(l):
    last, seen, n = None, False, 0
    for w in l:
        if w == 2:
            seen = True
        last = w
        n += 1
    return [last, seen, n]


def inner(l):
    out = []
    for a in l:
        for b in l:
            if a < b:
                out.append((a, b))
    return out


def dictbuild(l):
    d = {}
    for i, w in enumerate(l):
        d[w] = i
    e = {w: 0 for w in l if w != 2}
    return [d, 2 in e, len(l), d.get(2), sorted(d)]


def removing(l):
    return [w for w in l if w != 2], [w for w in l if w == 2][:1], list(l) == [w for w in l]


def listeq(l, m):
    return [l == m, l != m, l + m == m + l, list(l) == l, tuple(l) == tuple(m), l == tuple(l), len(l) == len(m)]


def membership(l, v):
    return [v in l, v not in l, v in tuple(l), v in set(l), v in {w: 1 for w in l}, l.count(v) > 0]


class DictKind(dict):
    label = 'd'

    def twice(self):
        return [self.label, len(self) * 2]


class ListKind(list):
    def first(self):
        return self[0] if self else None


class SetKind(set):
    pass


def kinds(v):
    d = DictKind(a=v, b=2)
    e = DictKind({'a': 1}, a=v)
    f = DictKind([('k', v)])
    d['c'] = v
    return [dict(d), d.twice(), e['a'], len(e), f['k'], isinstance(d, dict), type(d) is dict, type(d.copy()) is DictKind,
            d == {'a': v, 'b': 2, 'c': v}, DictKind() == {}, 'a' in d]


def kinds2(v):
    l = ListKind([v, 1])
    l.append(v)
    s = SetKind([v, 1])
    return [l.first(), len(l), list(l), type(l) is ListKind, l == [v, 1, v], type(l + [1]) is ListKind, len(s), v in s, ListKind().first(),
            type(l[:1]) is ListKind]


def badkinds(n):
    try:
        if n == 0:
            ListKind(1, 2)
        elif n == 1:
            ListKind(a=1)
        elif n == 2:
            DictKind({}, {})
        elif n == 3:
            SetKind([1], [2])
        elif n == 4:
            SetKind([[]])
        elif n == 5:
            DictKind(5)
        return 'fine'
    except TypeError:
        return 'type'
    except ValueError:
        return 'value'


def unpack(v):
    d = {'a': v, 'b': 1}
    e = dict(d, c=2)
    f = {**d, 'a': 3}

    def g(a, b=0, **kw):
        return [a, b, sorted(kw)]
    return [g(**d), g(**e), f['a'], f['b'], g(v, **{'z': 1}), len(e)]


def complexes(a, b):
    c = complex(a, b)
    return [c.real, c.imag, c == complex(a), c == a, complex(c) == c, complex(str(c)) == c, c != c, isinstance(c, complex), type(complex(a)) is complex]


def walrus(a):
    out = []
    for i in range(3):
        if (n := a + i) > 1:
            out.append(n)
        else:
            continue
    else:
        out.append('end')
    return out


def conds(a, b):
    return [not a, not not b, a is b, a is not None, (a or b) and b, a if a else b, a < b <= 5, a == b != 3, None or a, 0 and b]


def swap(a, b):
    a, b = b, a
    (c, [d, e]) = (a, [b, a])
    f = g = [a]
    g.append(b)
    x, *y, z = [a, b, c, d]
    return [a, b, c, d, e, f, y, x, z]


def strcmp(a, b):
    return [a == b, a + b == b + a, a.startswith(b), a in b, len(a + b) == len(a) + len(b), (a + b).startswith(a), a[:1] + a[1:] == a, a < a + 'x', b'' == a, a is None]


class Err(ValueError):
    def __init__(self, code, note='n'):
        super().__init__('code %s' % code)
        self.code = code
        self.note = note


def excargs(n):
    try:
        if n > 2:
            raise Err(n)
        if n == 2:
            raise Err(n, note='two')
        raise KeyError(n)
    except Err as e:
        return [e.code, e.note, isinstance(e, ValueError), len(e.args)]
    except LookupError as e:
        return ['lookup', e.args[0]]


class P(object):
    def __init__(self, v):
        self._x = v
        self.n = 0

    @property
    def x(self):
        self.n += 1
        return self._x

    @x.setter
    def x(self, value):
        if value == 3:
            raise ValueError('three')
        self._x = value + 1

    @x.deleter
    def x(self):
        self._x = None

    @staticmethod
    def s(a):
        return a + 1

    @classmethod
    def c(cls, a):
        return [cls.__name__, a]


def propertied(v):
    p = P(v)
    try:
        p.x = v
        r = 'set'
    except ValueError:
        r = 'kept'
    out = [p.x, r, P.s(v), p.s(v), P.c(v), p.c(v), p.n]
    del p.x
    return out + [p.x, p.n, hasattr(p, 'y'), getattr(p, 'y', v)]


class Truthy(object):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __contains__(self, x):
        return x == self.n

    def __iter__(self):
        return iter([self.n, 1])

    def __getitem__(self, i):
        if i > 2:
            raise IndexError(i)
        return self.n + i

    def __call__(self, *a, **k):
        return [self.n, len(a), sorted(k)]


def truthy(n):
    t = Truthy(n)
    return [bool(t), not t, 'y' if t else 'n', len(t), n in t, 7 in t, list(t), [x for x in t], t[0], t[2], t(1, 2, a=3), any(t), tuple(t)]


def truthy2(n):
    t = Truthy(n)
    out = []
    for i in range(4):
        try:
            out.append(t[i])
        except IndexError as e:
            out.append(e.args[0])
    a, b = t
    return [out, a, b, max(t), sum(t), dict(zip(t, t))[1], set(t) == {n, 1}]


class BaseA(object):
    kind = 'A'
    shared = []

    def __init__(self, v):
        self.v = v

    def who(self):
        return [self.kind, self.v]

    def step(self):
        return self.who() + ['a']


class MixB(object):
    def who(self):
        return ['mix'] + super(MixB, self).who()


class SubC(MixB, BaseA):
    kind = 'C'

    def __init__(self, v, w=0):
        super(SubC, self).__init__(v + w)
        self.w = w

    def step(self):
        return super(SubC, self).step() + ['c']


def inherit(v):
    c, a = SubC(v, 1), BaseA(v)
    d = SubC(v)
    d.kind = 'own'
    return [c.who(), c.step(), a.step(), d.who(), c.kind, isinstance(c, BaseA), isinstance(a, MixB), issubclass(SubC, MixB), d.w, c.v,
            BaseA.who(c), hasattr(a, 'w'), type(d).__name__]


def inherit2(v):
    c = SubC(v)
    c.extra = v
    del c.extra
    out = [hasattr(c, 'extra'), getattr(c, 'extra', 'no'), 'v' in c.__dict__, sorted(c.__dict__)]
    setattr(c, 'na' + 'me', v)
    out.append(c.name)
    try:
        c.missing
    except AttributeError:
        out.append('missing')
    try:
        del c.nothing
    except AttributeError:
        out.append('nothing')
    return out


def nonlocals(v):
    n = 0
    seen = []

    def add(x, twice=False):
        nonlocal n
        n += x
        if twice:
            add(x)
        seen.append(n)
        return n
    first = add(v)
    add(1, twice=True)
    f = lambda x, y=v: x + y
    g = [lambda i=i: i + v for i in range(2)]
    return [first, n, seen, f(1), f(1, 2), [h() for h in g]]


def gens(v):
    def count(n):
        i = 0
        while i < n:
            got = i + v
            yield got
            i += 1
        return
    it = count(2)
    a = next(it)
    rest = list(it)
    return [a, rest, next(it, 'end'), list(count(0)), sum(count(3)), [x for x in count(2) if x != v], dict((x, 1) for x in count(1)), tuple(count(2))]


def dictviews(v):
    d = {'a': v, 'b': 2}
    out = []
    for k in list(d):
        if d[k] == 2:
            d.pop(k)
    out.append(sorted(d))
    d.update(c=v, a=0)
    d.update({'z': 1})
    d.update([('q', v)])
    out += [sorted(d.items()), list(d), list(d.values()), 'z' in d.keys(), ('q', v) in d.items(), d.setdefault('a', 9), d.setdefault('n', v), len(d)]
    x = d.popitem()
    return out + [x, d.get('nope'), d.get('a'), dict(d) == d, {**d} == d, d != {}]


def whileelse(n):
    i = n
    out = []
    while i < 3:
        i += 1
        if i == 2:
            continue
        if i == -5:
            break
        out.append(i)
    else:
        out.append('else')
    for x in out:
        if x == 'else':
            break
    else:
        out.append('none')
    return out


def slices(a, b):
    l = [a, b, 3, 4]
    l[1:3] = [9]
    m = l[::-1]
    l[0], l[-1] = l[-1], l[0]
    del l[0]
    t = (a, b, 5)
    return [l, m, t[1:], t[-2], l * 2, [a] * 3, t + (1,), l[5:], t[:0], l.index(9), [x for x in reversed(t)], list(enumerate(t, 1))]


def kwdefaults(a, b):
    def f(x, *rest, key=a, **kw):
        return [x, rest, key, sorted(kw.items())]
    args = [1, 2]
    return [f(a), f(a, b), f(a, b, key=3), f(*args), f(*args, b, z=a), f(x=a, y=b), (lambda *a, **k: [a, k])(a, k=b)]


I3 = [(3, 4), (0, 0), (-2, 5), (7, -3)]
LS = [([],), ([1],), ([1, 2, 3],), ([3, 0, 2, 6, 1],), ([2, 2],), ([5, 4, 4],)]
CASES = [
    ('arith', I3), ('division', [(7, 2), (-7, 2), (7, -2), (-7, -2), (1, 0)]), ('truediv', [(7, 2), (1, 4), (1, 0), (2.5, 2)]),
    ('chain', I3), ('boolops', [(3, 0), (0, 3), ('', 'a'), ('a', ''), (True, False), (0.0, 1.5)]),
    ('mixed', [(1, 1), (True, 1), (0, False), ('1', 1), (1.0, 1), (2, 2.0)]),
    ('strings', [('abc',), ('',), ('ab',)]), ('stripping', [(' a ',), ('xax',), ('',), ('\t\n',)]), ('indexing', [('abc', 0), ('abc', -1), ('abc', 3), ('', 0)]),
    ('slicing', [([1, 2, 3], 1), ([1, 2, 3], 0), ([1, 2, 3], 5), ([], 1), ([1, 2, 3], -1)]),
    ('listops', [([1, 2], 3), ([], 1), ([5, 5], 5)]), ('listpop', [([1, 2, 3], 0), ([1, 2, 3], -1), ([1, 2, 3], 3), ([], 0)]),
    ('listrem', [([1, 2, 1], 1), ([1, 2], 3)]), ('listset', [([1, 2, 3], 0, 9), ([1, 2, 3], -1, 9), ([1], 1, 9)]),
    ('listidx', [([1, 2, 1], 1), ([1, 2], 2), ([1], 5)]), ('listrev', LS), ('loops', LS + [([1, 0, 2],), ([6, 1],)]), ('whiles', [(1,), (3,), (9,)]),
    ('comps', LS), ('folds', LS), ('anyall', LS + [([4, 5],), ([0],)]),
    ('dicts', [('a', 5), ('z', 5), ('b', 'v')]), ('dictpop', [('a',), ('b',), ('z',)]), ('dictpopd', [('a',), ('z',)]), ('dictdel', [('a',), ('z',)]),
    ('dictkey', [('a',), (1,), (True,), (1.0,), ('b',), (2,)]), ('dictmutkey', [('a', 'a'), ('a', 'b'), (1, True), (1, 1.0), (1, '1')]), ('dictloop', [('a',), ('b',)]),
    ('sets', [(1, 2), (5, 6), (3, 3)]), ('tuples', [(1, 2), ('a', 3), (0, 0)]), ('star', [([1, 2],), ([1],), ([1, 2, 3],)]),
    ('tryflow', [(0,), (1,), (2,), (3,)]), ('tryfin', [(1,), (2,), (3,), (4,), (7,)]), ('nested', [(0,), (1,), (5,)]), ('reraise', [(0,), (5,)]),
    ('uncaught', [(i,) for i in range(9)]), ('closures', [(1,), (-3,)]), ('calls', [(1,), (0,)]), ('badcall', [(i,) for i in range(5)]),
    ('objects', [(0,), (3,)]), ('attrs', [('v',), ('zz',), ('kind',)]), ('noattr', [('v',), ('zz',), ('kind',)]), ('eqs', [(1, 1), (1, 2)]), ('special', [(1,), (0,)]), ('special2', [(3,), (0,)]), ('special3', [(3,), (0,)]), ('special4', [(3,), (0,)]), ('objects2', [(3,), (0,)]), ('objects3', [(3,), (0,)]), ('objects4', [(3,), (0,)]), ('objects5', [(3,), (0,)]), ('infs', [(float('inf'),), (float('-inf'),), (1.5,), (-0.0,)]),
    ('iters', [(0,), (3,)]), ('withs', [(0, True), (1, True), (1, False), (2, False)]), ('fmt', [(5, 'a'), (-1, ''), (0, '{}')]),
    ('conv', [('5',), ('-7',), ('x',), ('',), (' 3 ',), ('1.5',)]), ('convf', [(2.5,), (3.0,), (-2.5,), (4,), (0,)]), ('joins', LS[:4]),
    ('augment', [(1, [2]), (0, [])]), ('aliasing', LS[:3]), ('defaults', [(1,)]), ('ternary', [(0,), (1,), (-1,)]), ('scopes', [(5,)]), ('sorting', LS), ('zips', LS[:4]),
    ('isinst', [(1,), (True,), (1.5,), ('s',), ([1],), (None,), ((1,),), ({},)]), ('numbers', [(1, 2.5), (2.5, 2.5), (True, 2), (-1.5, 0)]),
    ('floats', [(1.5,), (-2.0,), (float('inf'),), (0.0,), (-0.0,), (2.5,), (3.5,), (-0.5,)]), ('dels', [(0,), (2,), (3,), (-1,)]), ('generators', LS[:4]), ('partials', [(1,)]),
    ('earlyexit', [([1, 2, 3], 2), ([1], 5), ([], 1), ([4, 4], 4)]), ('firstbad', [([1, 2],), ([1, -1, 2],), ([],)]), ('carry', LS), ('inner', LS[:4]), ('dictbuild', LS[:4] + [([2, 2],)]),
    ('kinds', [(1,), (2,), (None,)]), ('kinds2', [(1,), (2,)]), ('badkinds', [(i,) for i in range(7)]), ('unpack', [(1,), (3,)]),
    ('complexes', [(1.5, 2.5), (0.0, 0.0), (float('inf'), 1.0)]), ('walrus', [(0,), (1,), (5,), (-3,)]),
    ('conds', I3 + [(None, 1), (1, None)]), ('swap', I3), ('strcmp', [('a', 'b'), ('', 'a'), ('ab', 'a'), ('aa', 'a')]),
    ('excargs', [(0,), (2,), (5,)]), ('propertied', [(1,), (3,), (0,)]),
    ('truthy', [(0,), (1,), (3,)]), ('truthy2', [(0,), (1,), (3,)]), ('inherit', [(0,), (5,)]), ('inherit2', [(0,), (5,)]), ('nonlocals', [(1,), (0,)]),
    ('gens', [(1,), (0,)]), ('dictviews', [(2,), (5,)]), ('whileelse', [(0,), (1,), (3,)]), ('slices', [(1, 2), (9, 9)]), ('kwdefaults', [(1, 2)]),
    ('removing', LS), ('listeq', [([1, 2], [1, 2]), ([1], [1, 2]), ([], []), ([1, 2], [2, 1])]), ('membership', [([1, 2], 1), ([1], 3), ([], 0)]),
]
