"""Random properties of every kind, with valid values and the documented JSON form of a value."""
import datetime
import math
import uuid
import numpy as np
import properties
import properties.extras
import vectormath as vmath


class Kind(object):
    """prop: the property; gen(r): a valid value; js(v): the JSON form of a stored value, as documented."""

    def __init__(self, tag, prop, gen, js, hashable=True, kids=()):
        self.tag, self.prop, self.gen, self.js, self.hashable, self.kids = tag, prop, gen, js, hashable, kids


def ident(v):
    return v


def js_float(v):
    if math.isnan(v) or math.isinf(v):
        return str(v)
    return v


def js_array(v):
    def rec(x):
        return [rec(y) for y in x] if isinstance(x, list) else (str(x) if x != x or x in (math.inf, -math.inf) else x)
    return rec(v.tolist())


FLOATS = [0.0, 1.0, -2.5, 1e300, 5e-324, 0.1, 1 / 3, float('inf'), float('-inf'), float('nan'), -0.0, 123456789.123456789]
WORDS = ['', 'abc', 'ünï', 'two words', 'tab\tand\nline', '__class__', 'q' * 60]


def k_boolean(r):
    return Kind('boolean', properties.Boolean('b', required=False), lambda r: r.choice([True, False]), ident)


def k_integer(r):
    return Kind('integer', properties.Integer('i', required=False), lambda r: r.choice([0, 1, -7, 10 ** 20, r.randint(-99, 99)]), ident)


def k_float(r):
    return Kind('float', properties.Float('f', required=False), lambda r: r.choice(FLOATS + [r.uniform(-5, 5)]), js_float)


def k_complex(r):
    def gen(r):
        return complex(r.choice([0.0, -1.5, 2.25, 1e30, r.uniform(-2, 2), float('inf'), float('nan')]),
                       r.choice([0.0, -1.5, 2.0, r.uniform(-2, 2), -0.0]))
    return Kind('complex', properties.Complex('c', required=False), gen, str)


def k_string(r):
    return Kind('string', properties.String('s', required=False), lambda r: r.choice(WORDS), ident)


def k_choice(r):
    return Kind('choice', properties.StringChoice('c', ['red', 'green', 'blue'], required=False),
                lambda r: r.choice(['red', 'green', 'blue']), ident)


def k_color(r):
    return Kind('color', properties.Color('c', required=False), lambda r: tuple(r.randint(0, 255) for _ in range(3)), list)


def k_datetime(r):
    def gen(r):
        return datetime.datetime(r.choice([1, 999, 1999, 2024]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23),
                                 r.randint(0, 59), r.randint(0, 59))

    def js(v):
        return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (v.year, v.month, v.day, v.hour, v.minute, v.second)
    return Kind('datetime', properties.DateTime('d', required=False), gen, js)


def k_url(r):
    return Kind('url', properties.extras.URL('u', required=False),
                lambda r: 'https://example.com/' + r.choice(['', 'a?b=c', 'x#y']), ident)


def k_array(r):
    dtype, shape = r.choice([(float, ('*',)), (float, (2, '*')), (float, ('*', '*')), (int, ('*',)), ((int, float), (3,)), (bool, ('*',))])

    def gen(r):
        dims = [d if d != '*' else r.randint(1, 3) for d in shape]
        t = dtype if not isinstance(dtype, tuple) else r.choice(dtype)
        n = int(np.prod(dims))
        if t is float:
            flat = [r.choice(FLOATS) for _ in range(n)]
            if isinstance(dtype, tuple):
                flat[0] = 0.5
        elif t is int:
            flat = [r.randint(-9, 9) for _ in range(n)]
        else:
            flat = [r.random() < 0.5 for _ in range(n)]
        return np.array(flat, dtype=t).reshape(dims)
    return Kind('array', properties.Array('a', shape=shape, dtype=dtype, required=False), gen, js_array, hashable=False)


def k_vector(r):
    cls, w, dims = r.choice([(properties.Vector3, vmath.Vector3, (3,)), (properties.Vector2, vmath.Vector2, (2,)),
                             (properties.Vector3Array, vmath.Vector3Array, (2, 3)),
                             (properties.Vector2Array, vmath.Vector2Array, (3, 2))])
    return Kind(cls.__name__.lower(), cls('v', required=False),
                lambda r: w(np.array([r.uniform(-5, 5) for _ in range(int(np.prod(dims)))]).reshape(dims)), js_array, hashable=False)


def k_dictionary_of(r, depth):
    key = r.choice([k_string, k_choice, k_integer])(r)
    val = random_kind(r, depth - 1)

    def gen(r):
        return {key.gen(r): val.gen(r) for _ in range(r.randint(0, 3))}

    def js(v):
        return {key.js(k): val.js(x) for k, x in v.items()}
    return Kind('dictionary', properties.Dictionary('d', key_prop=key.prop, value_prop=val.prop, required=False,
                                                    observe_mutations=r.random() < 0.5), gen, js, False, (key, val))


def k_list_of(r, depth):
    e = random_kind(r, depth - 1)
    cls = r.choice([properties.List, properties.List, properties.Tuple])
    kw = {'observe_mutations': r.random() < 0.5} if cls is properties.List else {}
    make = list if cls is properties.List else tuple
    return Kind(cls.__name__.lower(), cls('l', e.prop, required=False, **kw),
                lambda r: make(e.gen(r) for _ in range(r.randint(0, 3))), lambda v: [e.js(x) for x in v], False, (e,))


def k_set_of(r, depth):
    e = random_kind(r, 0)
    while not e.hashable or e.tag in ('float', 'complex'):
        e = random_kind(r, 0)
    return Kind('set', properties.Set('s', e.prop, required=False), lambda r: {e.gen(r) for _ in range(r.randint(0, 3))},
                lambda v: sorted((e.js(x) for x in v), key=repr), False, (e,))


def k_union(r, depth):
    """Unions of members that do not share JSON forms."""
    members = r.choice([lambda: [k_integer(r), k_words(r)], lambda: [k_color(r), k_words(r)],
                        lambda: [k_datetime(r), k_integer(r)], lambda: [k_instance(r, max(depth, 1)), k_integer(r)],
                        lambda: [k_instance(r, max(depth, 1)), k_instance(r, max(depth, 1))],
                        lambda: [k_boolean(r), k_color(r)]])()

    def js(v):
        for m in members:
            try:
                m.prop.validate(None, v)
            except (ValueError, TypeError, KeyError, AttributeError):
                continue
            return m.js(v)
        raise AssertionError('no member')
    return Kind('union', properties.Union('u', [m.prop for m in members], required=False),
                lambda r: r.choice(members).gen(r), js, False, members)


def k_words(r):
    return Kind('words', properties.String('w', required=False), lambda r: r.choice(['abc', 'word', 'zz top']), ident)


COUNT = [0]
REG = dict()


def k_instance(r, depth):
    cls, kinds = random_class(r, depth - 1)
    return Kind('instance', properties.Instance('i', cls, required=False), lambda r: make_instance(r, cls, kinds),
                lambda v: js_instance(v), False, tuple(kinds.values()))


BASE_KINDS = [k_boolean, k_integer, k_float, k_complex, k_string, k_choice, k_color, k_datetime, k_url, k_array, k_vector]


def random_kind(r, depth):
    if depth <= 0 or r.random() < 0.4:
        return r.choice(BASE_KINDS)(r)
    f = r.choice([k_dictionary_of, k_list_of, k_list_of, k_set_of, k_union, k_instance, k_instance])
    return f(r, depth)


def random_class(r, depth, fields=3):
    """A class with random properties, and the kinds of its properties."""
    COUNT[0] += 1
    name = str('Zoo%d' % COUNT[0])
    kinds = {'p%d' % i: random_kind(r, depth) for i in range(r.randint(1, fields))}
    body = {n: k.prop for n, k in kinds.items()}
    body['_REGISTRY'] = REG
    body['_kinds'] = kinds
    cls = type(name, (properties.HasProperties,), body)
    return cls, kinds


def make_instance(r, cls, kinds, p=0.75):
    x = cls()
    for n, k in kinds.items():
        if r.random() < p:
            setattr(x, n, k.gen(r))
    return x


def js_instance(x, include_class=True):
    """The documented serialization of an instance."""
    out = {n: x._kinds[n].js(v) for n, v in x._backend.items() if v is not properties.undefined and v is not None}
    if include_class:
        out['__class__'] = type(x).__name__
    return out


def canon(x):
    """Comparable form of JSON-like data: types matter, nan equals nan, sets of serialized elements are sorted."""
    if isinstance(x, dict):
        return ('dict', tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return ('list', tuple(canon(v) for v in x))
    if isinstance(x, float):
        return ('float', repr(float(x)))
    if isinstance(x, bool):
        return ('bool', x)
    return (type(x).__name__, x)


def mutables(v, out, seen):
    """Every mutable object reachable from a value."""
    if id(v) in seen:
        return
    if isinstance(v, properties.HasProperties):
        seen[id(v)] = v
        out.append(v)
        for x in v._backend.values():
            mutables(x, out, seen)
    elif isinstance(v, dict):
        seen[id(v)] = v
        out.append(v)
        for k, x in v.items():
            mutables(x, out, seen)
    elif isinstance(v, (list, set)):
        seen[id(v)] = v
        out.append(v)
        for x in v:
            mutables(x, out, seen)
    elif isinstance(v, tuple):
        for x in v:
            mutables(x, out, seen)
    elif isinstance(v, np.ndarray):
        seen[id(v)] = v
        out.append(v)


def shared(a, b):
    x, y = [], []
    mutables(a, x, {})
    mutables(b, y, {})
    ids = {id(v) for v in x}
    if any(id(v) in ids for v in y):
        return True
    for v in x:
        for w in y:
            if isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and np.shares_memory(v, w):
                return True
    return False
