"""What a contract can say.

A contract is an ordinary Python function using the intrinsics below.  The
verifier interprets it over symbolic values (pyvc/symapi.py gives each
intrinsic its symbolic meaning, for all inputs); the same function also runs
under CPython on the real code, where an intrinsic draws a value (random, or
the verifier's model when a counterexample is replayed).
"""
import random
import traceback


class ContractFailure(Exception):
    """A checked condition is false on a concrete run."""

    def __init__(self, label, detail=''):
        Exception.__init__(self, label + (': ' + detail if detail else ''))
        self.label = label
        self.detail = detail


class Discard(BaseException):
    """The drawn input does not satisfy the precondition."""


class Ctx(object):
    """State of one concrete run."""

    def __init__(self, seed=0, forced=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.forced = forced or {}
        self.drawn = []
        self.labels = {}
        self.covers = set()
        self.memo = {}
        self.bools = []
        self.keep = []
        self.names = {}
        self.log = []
        self.budget = {}
        self.undo = []

    def name(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s#%d' % (name, n)


_ctx = [Ctx()]
REGISTRY = {}


class Contract(object):
    def __init__(self, fn, prop, targets, symbolic, native, trials, about, slow, inline=(), bound=None, heavy=False):
        self.heavy = heavy
        self.fn, self.prop, self.targets = fn, prop, targets
        self.symbolic, self.native, self.trials = symbolic, native, trials
        self.about = about
        self.slow = slow
        self.bound = bound
        self.inline = tuple(inline)
        self.name = fn.__name__


def contract(prop, targets=(), symbolic=True, native=True, trials=120, slow=False, inline=(), bound=None,
             heavy=False):
    """Register a contract.  targets: functions of /repo the obligations are about.
    symbolic=False: a bounded check only (labelled as such everywhere).
    heavy: proved in the thorough tier only."""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        c = Contract(fn, tuple(props), tuple(targets), symbolic, native, trials,
                     ' '.join((fn.__doc__ or '').split()), slow, inline, bound, heavy)
        for p in props:
            REGISTRY.setdefault(p, []).append(c)
        return fn
    return deco


def bounded(prop, targets=(), trials=120, slow=False):
    return contract(prop, targets, symbolic=False, trials=trials, slow=slow)


# ---------------------------------------------------------------- assertions
def check(cond, label, detail=None):
    c = _ctx[0]
    c.labels[label] = c.labels.get(label, 0) + 1
    if not cond:
        if callable(detail) and getattr(detail, '__name__', '') == '<lambda>':
            detail = detail()
        raise ContractFailure(label, '' if detail is None else repr(detail)[:600])


def fail(label, detail=None):
    check(False, label, detail)


def assume(cond):
    if not cond:
        raise Discard()


def cover(label):
    _ctx[0].covers.add(label)


def symbolic():
    """True when interpreted by the verifier."""
    return False


# ---------------------------------------------------------------- inputs
def _forced(name):
    return _ctx[0].forced.get(name)


def _drawn(name, v):
    c = _ctx[0]
    try:
        r = repr(v)
    except Exception:
        r = object.__repr__(v)
    c.drawn.append((name, r[:300]))
    return v


def _dec(d):
    """A model value recorded by the verifier -> Python value."""
    from fractions import Fraction
    if not isinstance(d, dict):
        return None
    if 'none' in d:
        return None
    if 'int' in d:
        return d['int']
    if 'bool' in d:
        return d['bool']
    if 'str' in d:
        return d['str']
    if 'float' in d:
        f = d['float']
        if f in ('nan', 'inf', '-inf'):
            return float(f)
        try:
            return float(Fraction(f))
        except OverflowError:
            return float('inf')
    if 'complex' in d:
        return complex(_dec(d['complex'][0]), _dec(d['complex'][1]))
    return None


INTS = [0, 1, -1, 2, 3, 5, 7, 10, 42, 100, 255, 256, -3, -100, 2 ** 31, 2 ** 53 + 1, 10 ** 20, 10 ** 400, -10 ** 400]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 2.5, 3.1e-10, 1e-9, 2e-9, 1 + 5e-10, 1 - 5e-10, 1 + 2e-9, 3.0000000005,
          1e20, 1e308, -1e308, 1e-300, 123.456, float('inf'), float('-inf'), float('nan'), 4.999999999999, 5.0]
STRS = ['', ' ', 'a', 'A', 'abc', 'ABC', 'aBc', ' abc ', '1', '0', '12', ' 7 ', '1.5', '-3', 'nan', 'inf', '-inf',
        'True', 'true', 'false', 'y', 'N', 'hello world', 'x\ty', '\n', 'é', 'ß', 'İ', 'a' * 40, 'random', 'red', '#fff',
        '1e5', '1_000', '0x10', '1+2j', 'http://a.b/c', '__class__', 'None', 'X', 'up', 'ünïcode', '１２']


class Weird(object):
    """An object without any special behaviour."""

    def __repr__(self):
        return 'Weird()'


def any_int(name):
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None:
        v = _dec(f)
        return _drawn(n, int(v) if isinstance(v, (int, float)) and v == v and abs(v) != float('inf') else 0)
    r = _ctx[0].rng
    m = r.random()
    if m < 0.45:
        return _drawn(n, r.randint(-12, 12))
    if m < 0.8:
        return _drawn(n, r.choice(INTS))
    return _drawn(n, r.randint(-10 ** r.randint(1, 25), 10 ** r.randint(1, 25)))


def any_bool(name):
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None:
        return _drawn(n, bool(_dec(f)))
    return _drawn(n, _ctx[0].rng.random() < 0.5)


def any_float(name):
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None:
        v = _dec(f)
        return _drawn(n, float(v) if isinstance(v, (int, float)) else 0.0)
    r = _ctx[0].rng
    m = r.random()
    if m < 0.5:
        return _drawn(n, r.choice(FLOATS))
    if m < 0.7:
        return _drawn(n, float(r.randint(-20, 20)) + r.choice([0, 1e-10, -1e-10, 5e-10, -9.9e-10, 1e-9, 2e-9, 1e-8]))
    return _drawn(n, r.uniform(-1, 1) * 10 ** r.randint(-12, 12))


def any_str(name):
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None:
        v = _dec(f)
        return _drawn(n, v if isinstance(v, str) else '')
    r = _ctx[0].rng
    if r.random() < 0.6:
        return _drawn(n, r.choice(STRS))
    return _drawn(n, ''.join(r.choice('aAbB1 _-.xé#:/') for _ in range(r.randint(0, 8))))


def _atom(r):
    m = r.random()
    if m < 0.25:
        return r.choice(INTS) if r.random() < 0.5 else r.randint(-12, 12)
    if m < 0.5:
        return r.choice(FLOATS) if r.random() < 0.7 else r.uniform(-20, 20)
    if m < 0.72:
        return r.choice(STRS)
    if m < 0.8:
        return r.random() < 0.5
    if m < 0.86:
        return complex(r.choice(FLOATS), r.choice(FLOATS))
    if m < 0.9:
        return None
    if m < 0.93:
        return r.choice([b'abc', Weird(), object(), int, str, len])
    return r.choice([_np_scalar, _undef])(r)


def _np_scalar(r):
    import numpy as np
    return r.choice([np.int64(3), np.float64(2.5), np.float32(1.5), np.bool_(True), np.int8(-4), np.array(4),
                     np.array([1, 2, 3]), np.str_('abc')])


def _undef(r):
    import properties
    return properties.undefined


def any_value(name):
    """Any Python value at all."""
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None:
        if isinstance(f, dict) and 'obj' in f:
            return _drawn(n, Weird())
        return _drawn(n, _dec(f))
    r = _ctx[0].rng
    if r.random() < 0.82:
        return _drawn(n, _atom(r))
    k = r.randint(0, 3)
    t = r.choice([list, tuple, set, dict])
    if t is dict:
        return _drawn(n, {r.choice(STRS): _atom(r) for _ in range(k)})
    xs = [_atom(r) for _ in range(k)]
    if t is set:
        try:
            return _drawn(n, set(xs))
        except TypeError:
            return _drawn(n, set())
    return _drawn(n, t(xs))


def choose(name, options):
    """One of a fixed list of options (every one of them, symbolically)."""
    n = _ctx[0].name(name)
    f = _forced(n)
    if isinstance(f, dict) and 'choice' in f and f['choice'] < len(options):
        return _drawn(n, options[f['choice']])
    return _drawn(n, options[_ctx[0].rng.randrange(len(options))])


def rng():
    """Native-only: the run's random generator."""
    return _ctx[0].rng


def note(name, v):
    """Native-only: record a value in the replay file."""
    return _drawn(name, v)


# ---------------------------------------------------------------- uninterpreted functions
def _key(a):
    if isinstance(a, (str, int, bool, type(None), bytes)):
        return (type(a).__name__, a)
    if isinstance(a, float):
        return ('float', repr(a))
    if isinstance(a, tuple):
        return ('tuple',) + tuple(_key(x) for x in a)
    _ctx[0].keep.append(a)
    return ('id', id(a))


def _uf(kind, name, args, gen):
    k = (kind, name) + tuple(_key(a) for a in args)
    m = _ctx[0].memo
    if k not in m:
        m[k] = gen(_ctx[0].rng)
        if kind == 'b':
            _ctx[0].bools.append(m[k])
    return m[k]


def uf_bool(name, *args):
    """An arbitrary but fixed boolean function of the arguments."""
    return _uf('b', name, args, lambda r: r.random() < 0.5)


def uf_rare(name, *args):
    """Like uf_bool, but rarely true in concrete runs."""
    return _uf('b', name, args, lambda r: r.random() < 0.12)


def uf_int(name, *args):
    return _uf('i', name, args, lambda r: r.randint(-5, 20))


def uf_small(name, *args):
    """uf_int; natively drawn from small numbers."""
    return _uf('i', name, args, lambda r: r.choice([0, 1, 1, 2, 2, 2, 3, 3, -1]))


def uf_float(name, *args):
    """An arbitrary but fixed function to floats, nan and infinities included."""
    return _uf('f', name, args, lambda r: r.choice(FLOATS))


def uf_value(name, *args):
    """An arbitrary but fixed function to values."""
    return _uf('v', name, args, lambda r: r.choice([0, 1, 2, 3, 'a', 'b', 'c', 1.5, None, (1, 2)])
               if r.random() < 0.8 else Weird())


def uf_data(name, *args):
    """The same, to values that cannot be called."""
    return uf_value(name, *args)


def uf_str(name, *args):
    return _uf('s', name, args, lambda r: r.choice(['a', 'b', 'c', 'abc', 'x y', '']))


def fresh_value(name):
    """An arbitrary value (no relation to anything)."""
    return any_value(name)


class _Err(Exception):
    pass


def uf_exc(name, *args):
    """An arbitrary but fixed exception object: ValidationError or something else."""
    import properties

    def gen(r):
        m = r.random()
        if m < 0.6:
            n = len(_ctx[0].memo)
            return properties.ValidationError('err %s %d' % (name, n), 'invalid', 'p%d' % n, None)
        if m < 0.7:
            return ValueError('%s' % name)
        if m < 0.8:
            return KeyError('%s' % name)
        if m < 0.85:
            return AttributeError('%s' % name)
        return _Err('%s' % name)
    return _uf('e', name, args, gen)


# ---------------------------------------------------------------- comparison
def same(a, b):
    """The same value: identical objects, or equal immutable scalars of the same type."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, (int, str, bool, bytes)):
        return a == b
    if isinstance(a, complex):
        return repr(a) == repr(b)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def same_seq(a, b):
    """Two sequences with the same values in the same order."""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def same_dict(a, b):
    """Two dictionaries with the same keys, each with the same value."""
    if len(a) != len(b):
        return False
    for k in a:
        if k not in b or not same(a[k], b[k]):
            return False
    return True


def cardinality(a, b):
    """Lemma: dictionaries with the same keys have the same length."""
    if set(a) == set(b) and len(a) != len(b):
        raise AssertionError('cardinality')


def mkseq(name, fn, lo=0):
    """A list of arbitrary length n >= lo whose element i is fn(i)."""
    n = _ctx[0].name(name)
    r = _ctx[0].rng
    f = _forced(n)
    k = lo + r.choice([0, 0, 1, 1, 2, 3, 5])
    if f is not None and isinstance(_dec(f), int):
        k = max(lo, min(_dec(f), 12))
    _drawn(n, k)
    return [fn(i) for i in range(k)]


def mkdict(name, fn, keys=None):
    """A dictionary with arbitrary string keys; key k maps to fn(k) (fn must be pure)."""
    n = _ctx[0].name(name)
    r = _ctx[0].rng
    pool = list(keys or KEYS)
    r.shuffle(pool)
    pool = pool[:r.choice([0, 1, 1, 2, 3, 4])]
    _drawn(n, pool)
    return {k: fn(k) for k in pool}


def any_key(name, d):
    """Any key of the dictionary (which must not be empty)."""
    n = _ctx[0].name(name)
    ks = sorted(d, key=repr)
    assume(ks)
    f = _forced(n)
    if f is not None and _dec(f) in ks:
        return _drawn(n, _dec(f))
    return _drawn(n, _ctx[0].rng.choice(ks))


def any_name(name, hints):
    """Any string; concrete runs draw mostly from the hints."""
    n = _ctx[0].name(name)
    f = _forced(n)
    if f is not None and isinstance(_dec(f), str):
        return _drawn(n, _dec(f))
    return _drawn(n, _ctx[0].rng.choice(list(hints) * 3 + ['', 'q', '__class__']))


KEYS = ['a', 'b', 'c', 'x', 'y', 'name_1', 'zeta']


def abstract(cls, kind, args=(), fields=None):
    """An arbitrary object of class cls, fixed by kind and args; attributes: fields(*args) (pure)."""
    def gen(r):
        o = cls.__new__(cls)
        for k, v in (fields(*args) if fields else {}).items():
            object.__setattr__(o, k, v)
        return o
    return _uf('abs', cls.__name__ + ' ' + kind, tuple(args), gen)


def abs_class(base, props, **attrs):
    """A subclass of base with exactly these properties (and class attributes)."""
    cls = type(base)(base.__name__, (base,), dict(props))
    for k, v in attrs.items():
        setattr(cls, k, v)
    return cls


def new_instance(cls, **attrs):
    """An instance of cls in the given state (its attributes are replaced)."""
    o = cls.__new__(cls)
    for k, v in dict(dict(_backend={}, _listeners={}), **attrs).items():
        object.__setattr__(o, k, v)
    return o


def stand_in(real, stub):
    """For the rest of the run, calls of the library function or class real are calls of stub (its assumed contract)."""
    import sys
    undo = _ctx[0].undo
    name = real.__name__
    missing = undo

    def put(mod, k):
        undo.append((mod, k, vars(mod).get(k, missing)))
        setattr(mod, k, stub)
    for m in [m for n, m in sorted(sys.modules.items()) if m is not None and n.split('.')[0] == 'properties']:
        for k in [k for k, v in list(vars(m).items()) if v is real]:
            put(m, k)
        if getattr(__import__('builtins'), name, None) is real and name not in vars(m):
            put(m, name)
    own = {'_io': 'io'}.get(real.__module__, real.__module__)
    if own != 'builtins' and own in sys.modules and vars(sys.modules[own]).get(name) is real:
        put(sys.modules[own], name)


def undo_stand_ins(ctx):
    while ctx.undo:
        mod, k, v = ctx.undo.pop()
        if v is ctx.undo:
            delattr(mod, k)
        else:
            setattr(mod, k, v)


def log(*event):
    """Append an event to the ghost trace."""
    _ctx[0].log.append(event)


def trace():
    return list(_ctx[0].log)


def clear_trace():
    del _ctx[0].log[:]


def snapshot(d):
    """A shallow copy of a list, dict or set as a plain container (spec side)."""
    if isinstance(d, dict):
        return dict(d)
    if isinstance(d, set):
        return set(d)
    return list(d)
