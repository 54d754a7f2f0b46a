"""C23: arrays and vectors have the declared shape and dtype; vectors are scaled; the input is untouched."""
import itertools
import math
import warnings
import numpy as np
import properties
import vectormath as vmath
from properties import undefined
from properties.math import TYPE_MAPPINGS, VECTOR_DIRECTIONS
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from pyvc.api import *           # noqa

VALIDATE = ['properties.math:Array.validate', 'properties.math:Array.error']
VECTOR = ['properties.math:BaseVector.validate', 'properties.math:BaseVector._length_array']
STRINGS = ['properties.math:Vector3.validate', 'properties.math:Vector2.validate',
           'properties.math:Vector3Array.validate', 'properties.math:Vector2Array.validate']
JSON = ['properties.math:Array.to_json', 'properties.math:Array.deserialize', 'properties.math:BaseVector.deserialize',
        'properties.math:Array.from_json', 'properties.math:Vector3.from_json', 'properties.math:Vector2.from_json',
        'properties.math:Vector3Array.from_json', 'properties.math:Vector2Array.from_json']

KINDS = {'int': 'ui', 'float': 'f', 'bool': 'b', 'complex': 'c'}
DTYPES = [t for n in range(1, 5) for t in itertools.combinations((int, float, bool, complex), n)]
ALLKINDS = list('biufcmMOSUV')


class Odd(Exception):
    """An error of the wrapper that is no ValueError, TypeError, ..."""


class Kind(object):
    """A numpy dtype."""


class WrapMeta(type(np.ndarray)):
    """The wrapper class is called through this."""

    def __call__(cls, value):
        log('wrap', value)
        return wrapped(value)


class Fake(np.ndarray, metaclass=WrapMeta):
    """An array with arbitrary dtype and shape."""

    def __new__(cls):
        return np.ndarray.__new__(cls, ())

    @property
    def dtype(self):
        return abstract(Kind, 'dtype', (), lambda: {'kind': KIND[0]})

    @property
    def ndim(self):
        return rank('array', 0)

    @property
    def shape(self):
        return sizes('array', 0)


def rank(what, i):
    return uf_small('rank of ' + what, i)


def sizes(what, i):
    return [uf_small('size of ' + what, i, j) for j in range(rank(what, i))]


class Dims(tuple):
    """A declared shape: any number of dimensions, each '*' or an integer."""

    def __len__(self):
        return rank('shape', self.index)

    def __iter__(self):
        i = self.index
        return iter(['*' if uf_bool('any size', i, j) else uf_small('size of shape', i, j) for j in range(rank('shape', i))])


def dims(i):
    assume(rank('shape', i) >= 0)
    return abstract(Dims, 'shape', (i,), lambda i: {'index': i})


def matches(i):
    """Shape i allows the array."""
    return rank('shape', i) == rank('array', 0) and all(
        uf_bool('any size', i, j) or uf_small('size of shape', i, j) == uf_small('size of array', 0, j)
        for j in range(rank('shape', i)))


def wrapped(value):
    return abstract(Fake, 'array', ())


def wrap_fails(value):
    return uf_rare('wrap raises', 0)


class AnyArray(properties.Array):
    """wrapper by contract: a class or a function."""

    @property
    def wrapper(self):
        return self.how


def as_function(value):
    log('wrap', value)
    return wrapped(value)


KIND = ['f']


def input_of(kind):
    """Any value, a list, a tuple or an array."""
    if kind == 'any':
        v = any_value('value')
        assume(not isinstance(v, (list, tuple, np.ndarray)))
        return v
    if kind == 'list':
        return mkseq('value', lambda i: uf_value('item', i))
    if kind == 'tuple':
        return (uf_value('item', 0), uf_value('item', 1))
    return abstract(Fake, 'array', ())


@contract('C23', VALIDATE, trials=1500)
def array_shape():
    """Array.validate returns the wrapped value if one of any number of declared shapes matches, else ValueError."""
    p = AnyArray('doc')
    p._name = 'prop'
    p.how = Fake if any_bool('wrapper class') else as_function
    p._coerce = any_bool('coerce')
    KIND[0] = 'f'
    some = any_bool('shapes declared')
    assume(rank('array', 0) >= 0)
    shapes = mkseq('shapes', dims)
    p._shape = shapes if some else None
    n = len(shapes)
    kind = choose('input', ['any', 'list', 'tuple', 'array'])
    value = input_of(kind)
    arr = kind == 'array'
    ok = arr or (p._coerce and kind != 'any')
    clear_trace()
    try:
        got = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        if ok:
            check(some, 'without declared shapes every shape is accepted')
            check(not any(matches(i) for i in range(n)), 'a matching shape is accepted')
        return
    cover('accepted')
    check(ok, 'anything else is rejected')
    check(got is wrapped(0), 'the wrapped value is returned')
    if some:
        check(any(matches(i) for i in range(n)), 'the shape matches a declared one')
    if p._coerce:
        check(same_seq(trace(), [('wrap', value)]), 'the wrapper is called once, on the value')
    else:
        check(same_seq(trace(), []), 'the wrapper is not called')


@contract('C23', VALIDATE, trials=600)
def array_dtype():
    """The dtype kind of the result is one of the declared ones; any subset of dtypes, any kind."""
    p = AnyArray('doc')
    p._name = 'prop'
    p.how = as_function
    dt = choose('dtype', DTYPES)
    KIND[0] = choose('kind', ALLKINDS)
    p._dtype = dt if any_bool('tuple') else list(dt)
    p._shape = None
    allowed = ''.join([KINDS[t.__name__] for t in dt])
    try:
        got = p.validate(None, [1])
    except properties.ValidationError:
        check(KIND[0] not in allowed, 'a declared dtype is accepted')
        return
    check(got is wrapped(0), 'the wrapped value is returned')
    check(KIND[0] in allowed, 'only declared dtypes are accepted')


ERRORS = [TypeError, AttributeError, OverflowError, ValueError, properties.ValidationError]


def refusing(value):
    raise ERRORS[KIND[0]]('not an array')


class Refused(properties.Array):
    wrapper = property(lambda self: refusing)


class RefusedVector(properties.math.BaseVector):
    wrapper = property(lambda self: refusing)


@contract('C23', VALIDATE, trials=100)
def array_wrapper_refuses():
    """Contents the wrapper refuses are a ValueError."""
    p = choose('prop', [Refused('doc'), RefusedVector('doc')])
    p._name = 'prop'
    KIND[0] = choose('error', [0, 1, 2, 3, 4])
    value = mkseq('value', lambda i: uf_value('item', i))
    try:
        p.validate(None, value)
    except ValueError:
        return
    fail('refused contents are rejected')


class FakeVec(np.ndarray):
    """A vector whose length may not be settable."""

    def __new__(cls):
        return np.ndarray.__new__(cls, ())

    @property
    def dtype(self):
        return abstract(Kind, 'dtype', (), lambda: {'kind': KIND[0]})

    @property
    def shape(self):
        return DIMS[0]

    @property
    def ndim(self):
        return len(DIMS[0])

    def copy(self):
        log('copy', self)
        return abstract(FakeVec, 'copied', (self,))

    @property
    def length(self):
        return uf_value('length', self)

    @length.setter
    def length(self, value):
        log('length', self, value)
        if uf_rare('zero vector', self):
            raise ZeroDivisionError('no length')


DIMS = [()]


def vector():
    return abstract(FakeVec, 'vector', ())


def as_vector(value):
    log('wrap', value)
    return vector()


class AnyVector(properties.math.BaseVector):
    """wrapper and _length_array by contract."""

    @property
    def wrapper(self):
        return as_vector

    def _length_array(self, value):
        log('lengths of', value)
        return uf_value('lengths', value)


class ScalarVector(properties.math.BaseVector):
    """wrapper by contract."""

    @property
    def wrapper(self):
        return as_vector


@contract('C23', VECTOR, trials=1000)
def vector_length():
    """With a length set a copy of the vector is scaled to it; a vector without direction is rejected."""
    own = any_bool('own lengths')
    p = AnyVector('doc') if own else ScalarVector('doc')
    p._name = 'prop'
    p._shape = None
    p._coerce = any_bool('coerce')
    KIND[0] = choose('kind', ['f', 'i', 'b', 'c', 'O'])
    DIMS[0] = (3,)
    size = any_float('length') if any_bool('scaled') else None
    p._length = size
    value = vector() if any_bool('a vector') else [1, 2, 3]
    ok = KIND[0] == 'f' and (p._coerce or not isinstance(value, list))
    copied = abstract(FakeVec, 'copied', (vector(),))
    target = uf_value('lengths', copied) if own else size
    steps = [('wrap', value)] if p._coerce else []
    if size is not None:
        steps.append(('copy', vector()))
        if own:
            steps.append(('lengths of', copied))
        steps.append(('length', copied, target))
    zero = uf_rare('zero vector', copied)
    clear_trace()
    try:
        got = p.validate(None, value)
    except properties.ValidationError as e:
        if ok:
            check(size is not None and zero, 'a vector that can be scaled is accepted')
            check(isinstance(e, ZeroDivisionError), 'a zero vector raises ZeroDivValidationError')
            cover('zero')
        return
    check(ok, 'only float vectors are accepted')
    check(same_seq(trace(), steps), 'a copy is scaled, once')
    if size is None:
        check(got is vector(), 'without a length the vector is returned as it is')
    else:
        check(not zero, 'a zero vector is rejected')
        check(got is copied, 'the scaled copy is returned')
        cover('scaled')


XYZ = {'ZERO': [0, 0, 0], 'X': [1, 0, 0], 'Y': [0, 1, 0], 'Z': [0, 0, 1], '-X': [-1, 0, 0], '-Y': [0, -1, 0],
       '-Z': [0, 0, -1], 'EAST': [1, 0, 0], 'WEST': [-1, 0, 0], 'NORTH': [0, 1, 0], 'SOUTH': [0, -1, 0],
       'UP': [0, 0, 1], 'DOWN': [0, 0, -1]}
XY = {k: v[:2] for k, v in XYZ.items() if k not in ('Z', '-Z', 'UP', 'DOWN')}
SPELLINGS = sorted(XYZ) + ['x', 'East', 'dOWN', '-z', 'zero', 'up ', '', 'xx', '--x', 'W', 'n', 'ZERO ', '+x', 'x\n', '0']


class V3(properties.Vector3):
    wrapper = property(lambda self: as_vector)


class V2(properties.Vector2):
    wrapper = property(lambda self: as_vector)


class V3Array(properties.Vector3Array):
    wrapper = property(lambda self: as_vector)


class V2Array(properties.Vector2Array):
    wrapper = property(lambda self: as_vector)


@contract('C23', STRINGS[:2], trials=800)
def direction_string():
    """Every string: a documented direction becomes its components, whatever its case; any other is rejected."""
    two = any_bool('two dimensions')
    p = V2('doc') if two else V3('doc')
    p._name = 'prop'
    KIND[0] = 'f'
    DIMS[0] = (2,) if two else (3,)
    table = XY if two else XYZ
    s = any_str('direction') if any_bool('arbitrary') else choose('spelling', SPELLINGS)
    clear_trace()
    try:
        got = p.validate(None, s)
    except properties.ValidationError:
        check(s.upper() not in table, 'documented directions are accepted')
        check(same_seq(trace(), []), 'the wrapper is not called')
        return
    cover('direction')
    check(got is vector(), 'the wrapped vector is returned')
    check(s.upper() in table, 'only documented directions are accepted')
    ev = trace()
    check(len(ev) == 1 and list(ev[0][1]) == table[s.upper()], 'the documented components')


@contract('C23', STRINGS, trials=1200)
def vector_shape():
    """Vector properties accept arrays of exactly their shape and float dtype."""
    which = choose('class', [0, 1, 2, 3])
    p = [V3('doc'), V2('doc'), V3Array('doc'), V2Array('doc')][which]
    p._name = 'prop'
    KIND[0] = choose('kind', ['f', 'i', 'U'])
    n, m = any_int('n'), any_int('m')
    DIMS[0] = choose('shape', [(), (n,), (n, m), (n, m, 2)])
    value = vector() if any_bool('an array') else [0, 1]
    size = 3 if which in (0, 2) else 2
    if which < 2:
        ok = len(DIMS[0]) == 1 and n == size
    else:
        ok = len(DIMS[0]) == 2 and m == size
    try:
        got = p.validate(None, value)
    except properties.ValidationError:
        check(not (ok and KIND[0] == 'f'), 'arrays of its shape are accepted')
        return
    cover('accepted')
    check(ok, 'only arrays of its shape are accepted')
    check(KIND[0] == 'f', 'only float arrays are accepted')
    check(got is vector(), 'the wrapped vector is returned')


@contract('C23', STRINGS[2:], trials=800, bound='lists of at most three items')
def direction_list():
    """Lists of vectors and direction strings: each string becomes its components, the list is left as it was."""
    two = any_bool('two dimensions')
    p = V2Array('doc') if two else V3Array('doc')
    p._name = 'prop'
    KIND[0] = 'f'
    DIMS[0] = (any_int('n'), 2 if two else 3)
    table = XY if two else XYZ
    n = choose('items', [0, 1, 3])
    at = 1 if n == 3 else 0
    s = any_str('direction')
    items = [[uf_value('component', i)] for i in [0, 1, 2][:n]]
    if at < n:
        items[at] = s
    value = list(items) if any_bool('list') else tuple(items)
    clear_trace()
    try:
        got = p.validate(None, value)
    except properties.ValidationError:
        check(at < n and s.upper() not in table, 'lists of vectors and documented directions are accepted')
        check(same_seq(value, items), 'the given list is unchanged')
        return
    cover('accepted')
    check(got is vector(), 'the wrapped array is returned')
    check(same_seq(value, items), 'the given list is unchanged')
    ev = trace()
    check(len(ev) == 1 and len(ev[0][1]) == n, 'the wrapper gets every item')
    if n == 3:
        passed = ev[0][1]
        for i in [0, 1, 2]:
            if i == at:
                check(s.upper() in table and list(passed[i]) == table[s.upper()], 'a direction becomes its components')
            else:
                check(passed[i] is items[i], 'other items are passed on')
    if n == 1:
        check(s.upper() in table and list(ev[0][1][0]) == table[s.upper()], 'a direction becomes its components')


def any_dim(name):
    """Something that may be a dimension."""
    v = any_value(name)
    assume(v is None or isinstance(v, (int, str, float)))
    return v


def good_dim(d):
    return (isinstance(d, str) and d == '*') or isinstance(d, int)


@contract('C23', ['properties.math:Array.shape', 'properties.math:Array._validate_shape',
                  'properties.math:Array.dtype', 'properties.math:Array.coerce', 'properties.math:BaseVector.length'], trials=900)
def array_settings():
    """shape is a tuple of '*' and integers or a set of them; dtype known types; coerce a boolean; length a positive number."""
    which = choose('setting', ['dtype', 'coerce', 'length'])
    p = properties.Vector3('doc') if which == 'length' else properties.Array('doc')
    v = any_value('v')
    if which == 'dtype':
        forms = [int, float, bool, complex, (int, float), [bool], (), [], str, (int, str), None, 'int', 5, (float, None), object]
        v = choose('dtype', forms)
        listed = list(v) if isinstance(v, (list, tuple)) else [v]
        ok = len(listed) > 0 and all([t in (int, float, bool, complex) for t in listed])
        old = (float, int)
    elif which == 'coerce':
        ok, old = isinstance(v, bool), True
    else:
        ok, old = isinstance(v, (int, float)) and v > 0, None
        if isinstance(v, int):
            assume(v < 2 ** 53)
    try:
        setattr(p, which, v)
    except TypeError:
        check(not ok, 'valid settings are accepted')
        check(getattr(p, which) == old, 'a refused setting changes nothing')
        return
    cover(which)
    if which == 'dtype':
        check(ok, 'only known types')
        check(list(p.dtype) == listed, 'and stored')
    elif which == 'coerce':
        check(ok and p.coerce is v, 'only booleans, stored')
    else:
        check(isinstance(v, (int, float)) and not v <= 0, 'only positive numbers')
        if v == v:
            check(p.length == v and isinstance(p.length, float), 'stored as a float')


@contract('C23', ['properties.math:Array.shape', 'properties.math:Array._validate_shape'], trials=900)
def shape_setting():
    """Array.shape: None, a tuple of '*' and integers, or a set of such tuples."""
    p = properties.Array('doc')
    a, b = any_dim('a'), any_dim('b')
    form = choose('form', [0, 1, 2, 3, 4, 5])
    v = [None, (), (a,), (a, b), ['*'], a][form]
    if form == 5:
        assume(not isinstance(v, (tuple, set)))
        assume(v is not None)
    ok = [True, True, good_dim(a), good_dim(a) and good_dim(b), False, False][form]
    try:
        p.shape = v
    except TypeError:
        check(not ok, 'valid shapes are accepted')
        check(p.shape == {('*',)}, 'a refused setting changes nothing')
        return
    check(ok, 'only tuples of * and integers')
    cover('set')
    if form == 0:
        check(p.shape is None, 'stored')
    else:
        got = list(p.shape)
        check(len(got) == 1 and same_seq(got[0], v), 'stored as a set of one tuple')


@contract('C23', ['properties.math:Vector3Array.shape', 'properties.math:Vector2Array.shape'], trials=900)
def vector_array_shape():
    """Vector arrays have two dimensions, the second one theirs."""
    two = any_bool('two dimensions')
    p = properties.Vector2Array('doc') if two else properties.Vector3Array('doc')
    d = 2 if two else 3
    a, b = any_dim('a'), any_dim('b')
    form = choose('form', [0, 1, 2, 3])
    v = [(), (a,), (a, b), (a, d, b)][form]
    ok = form == 2 and good_dim(a) and isinstance(b, int) and b == d
    try:
        p.shape = v
    except TypeError:
        check(not ok, 'valid shapes are accepted')
        check(p.shape == {('*', d)}, 'a refused setting changes nothing')
        return
    check(form == 2 and good_dim(a) and b == d, 'only two dimensions of its size')
    cover('set')
    got = list(p.shape)
    check(len(got) == 1 and same_seq(got[0], v), 'stored as a set of one tuple')


class Deser(object):
    """A registered serializer or deserializer."""

    def func(self, value, **kwargs):
        log('called', value, len(kwargs), kwargs.get('trusted'))
        return uf_value('result', value)


@contract('C23', ['properties.math:Array.deserialize', 'properties.math:BaseVector.deserialize'], trials=300)
def registered_deserializer():
    """A registered deserializer decides alone, None stays None."""
    p = choose('prop', [AnyArray('doc'), AnyVector('doc'), V3('doc'), V2Array('doc')])
    p._name = 'prop'
    p.how = as_function
    value = choose('value', [None, 5, [1, 2]])
    own = any_bool('registered')
    d = abstract(Deser, 'deserializer', ())
    if own:
        p.deserializer = d.func
    assume(own or value is None)
    clear_trace()
    got = p.deserialize(value, trusted=any_bool('trusted')) if any_bool('with trusted') else p.deserialize(value)
    if own:
        check(same(got, uf_value('result', value)), 'its result is returned')
        check(len(trace()) == 1, 'it is called once, the wrapper is not')
    else:
        check(got is None, 'None is kept')
        check(len(trace()) == 0, 'nothing is wrapped')


GARBAGE = [None, 'x', {}, [], (), 'nan', {1}, b'x', object(), np.datetime64('2020-01-01'), 10 ** 30, [1, 2, 3], np.array([1., 2.])]


def numbers(r, n):
    return [r.choice([0, 1, -2, 1.5, 0.25, -7.5, 3e3, True, np.float64(2.5), np.int32(4)]) for _ in range(n)]


def contents(r):
    """Something that is, or nearly is, an array, and whether it is garbage."""
    m = r.random()
    if m < 0.35:
        shape = tuple(r.choice([0, 1, 2, 3, 3, 4]) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
        a = np.array([r.choice([0., 1., -1., 2.5, 7.]) for _ in range(int(np.prod(shape)))]).reshape(shape)
        return a.astype(r.choice(['f8', 'f8', 'f4', 'i4', 'u2', '?', 'i8', 'c16', 'U3', 'O', 'f2']))
    if m < 0.6:
        v = numbers(r, r.randrange(5))
    elif m < 0.8:
        n = r.randrange(4)
        v = [numbers(r, n) for _ in range(r.randrange(4))]
        if r.random() < 0.2 and v:
            v[0] = tuple(v[0])
    elif m < 0.9:
        v = [numbers(r, r.choice([2, 3, 3])) for _ in range(r.randrange(4))]
        if v and r.random() < 0.5:
            v[-1][0] = r.choice(GARBAGE)
    else:
        v = numbers(r, r.randrange(4))
        v.insert(r.randrange(len(v) + 1), r.choice(GARBAGE))
        if r.random() < 0.3:
            return r.choice(GARBAGE + [5, 1.5, True])
    return tuple(v) if r.random() < 0.3 else v


def frozen(v):
    """The value, for later comparison."""
    if isinstance(v, np.ndarray):
        return (type(v), v.dtype, v.shape, v.tolist())
    if isinstance(v, (list, tuple)):
        return (type(v), [frozen(x) for x in v])
    return (type(v), repr(v))


@bounded('C23', VALIDATE, trials=2500)
def real_arrays():
    """Random shape sets and dtypes against lists, tuples and arrays of any dtype, ragged and mixed contents."""
    r = rng()
    dt = r.choice([float, int, bool, complex, (float, int), (bool, int), [float], (float, int, bool, complex)])
    shapes = r.choice([None, ('*',), (3,), ('*', '*'), ('*', 3), (2, '*'), (), (0,), {('*',), ('*', 3)}, {(2, 2), (1,)},
                       {(), ('*', '*', '*')}, ('*', 1, '*')])
    co = r.random() < 0.75
    p = properties.Array('a', shape=shapes, dtype=dt, coerce=co)
    v = contents(r)
    if not co and r.random() < 0.5:
        v = np.array(numbers(r, 3))
    note('case', (repr(shapes), repr(dt), co, repr(v)))
    before = frozen(v)
    ok = isinstance(v, np.ndarray) or (co and isinstance(v, (list, tuple)))
    if ok:
        try:
            a = np.array(v)
        except (ValueError, TypeError, OverflowError):
            ok = False
    if ok:
        types = dt if isinstance(dt, (list, tuple)) else [dt]
        ok = a.dtype.kind in ''.join(KINDS[t.__name__] for t in types)
    if ok and shapes is not None:
        each = shapes if isinstance(shapes, set) else {shapes}
        ok = any(len(s) == a.ndim and all(d == '*' or d == n for d, n in zip(s, a.shape)) for s in each)
    try:
        got = p.validate(None, v)
    except ValueError as e:
        check(not ok, 'valid arrays are accepted', lambda: str(e))
        check(frozen(v) == before, 'the input is unchanged')
        return
    check(ok, 'anything else is rejected', lambda: repr(got))
    cover('accepted')
    check(isinstance(got, np.ndarray), 'an array is returned')
    check(got.dtype == a.dtype and got.shape == a.shape, 'dtype and shape are kept')
    check(got.tolist() == a.tolist(), 'with the same contents')
    check(frozen(v) == before, 'the input is unchanged')
    if co and isinstance(v, np.ndarray) and v.size:
        check(not np.shares_memory(got, v), 'a coerced array is no view of the input')


@bounded('C23', VECTOR + STRINGS, trials=3000)
def real_vectors():
    """Random vectors, vector arrays and direction strings; lengths; zero vectors; input untouched."""
    r = rng()
    d = r.choice([2, 3])
    many = r.random() < 0.5
    cls = getattr(properties, 'Vector%d%s' % (d, 'Array' if many else ''))
    wrapper = getattr(vmath, 'Vector%d%s' % (d, 'Array' if many else ''))
    size = r.choice([None, None, 1, 2.5, 10, 0.125])
    co = r.random() < 0.8
    kw = {'coerce': co}
    if size is not None:
        kw['length'] = size
    p = cls('v', **kw)
    table = XYZ if d == 3 else XY

    def one():
        if r.random() < 0.3:
            s = r.choice(sorted(table))
            return r.choice([s, s.lower(), s.title()]), table[s]
        v = [float(x) for x in numbers(r, d)]
        if r.random() < 0.05:
            v = [0.] * d
        return (tuple(v) if r.random() < 0.2 else v), v
    if many:
        rows = [one() for _ in range(r.choice([1, 1, 2, 3, 5]))]
        want = [w for _, w in rows]
        v = [x for x, _ in rows]
        if r.random() < 0.2:
            v = tuple(v)
        elif r.random() < 0.3:
            v = np.array(want, dtype=float)
    else:
        v, want = one()
        want = [want]
        if r.random() < 0.3:
            v = np.array(want[0], dtype=float)
    if r.random() < 0.3:
        v = np.array(want if many else want[0], dtype=float)
        v = wrapper(v)
    ok = co or isinstance(v, wrapper) or (isinstance(v, str) and False)
    if size is not None and any(all(x == 0 for x in w) for w in want):
        ok = False
    note('case', (cls.__name__, kw, repr(v)))
    before = frozen(v)
    table_before = frozen([VECTOR_DIRECTIONS[k] for k in sorted(VECTOR_DIRECTIONS)])
    try:
        got = p.validate(None, v)
    except properties.ValidationError as e:
        check(not ok, 'valid vectors are accepted', lambda: str(e))
        check(frozen(v) == before, 'the input is unchanged')
        return
    check(ok, 'anything else is rejected', lambda: repr(got))
    cover('accepted')
    check(type(got) is wrapper, 'a vector of the wrapper class is returned')
    check(got.dtype.kind == 'f', 'of floats')
    check(got.shape == ((len(want), d) if many else (d,)), 'of its shape')
    for row, w in zip(np.asarray(got).reshape((-1, d)).tolist(), want):
        if size is not None:
            n = math.sqrt(sum(x * x for x in w))
            w = [x * size / n for x in w]
        check(all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(row, w)), 'the given components, scaled', lambda: (row, w))
    check(frozen(v) == before, 'the input is unchanged')
    if isinstance(v, np.ndarray) and (co or size is not None):
        check(not np.shares_memory(got, v), 'the result is no view of the input')
    got[...] = 99.
    check(frozen([VECTOR_DIRECTIONS[k] for k in sorted(VECTOR_DIRECTIONS)]) == table_before, 'the directions are constant')


@bounded('C23', VALIDATE + VECTOR + STRINGS, trials=2500)
def garbage_is_value_error():
    """Whatever is given to a vector property, the result has its class, shape and dtype or ValueError is raised."""
    r = rng()
    d = r.choice([2, 3])
    many = r.random() < 0.5
    cls = getattr(properties, 'Vector%d%s' % (d, 'Array' if many else ''))
    wrapper = getattr(vmath, 'Vector%d%s' % (d, 'Array' if many else ''))
    kw = {'coerce': r.random() < 0.8}
    if r.random() < 0.4:
        kw['length'] = 2
    p = cls('v', **kw)
    v = contents(r)
    if isinstance(v, np.ndarray) and v.dtype.kind in 'cO':
        v = v.tolist()
    if r.random() < 0.2:
        v = r.choice(['x', 'up', 'q', '', ['x'], ['q'], [['x']], ['x', 'up'], ['y', [1, 2]], 'XX', ['west', 5], [[], 'x']])
    note('case', (cls.__name__, kw, repr(v)))
    before = frozen(v)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            got = p.validate(None, v)
        except ValueError:
            check(frozen(v) == before, 'the input is unchanged')
            return
    cover('accepted')
    check(isinstance(got, wrapper) and got.dtype.kind == 'f', 'a float vector of the wrapper class')
    check(got.shape[-1] == d and got.ndim == (2 if many else 1), 'of its shape')
    check(frozen(v) == before, 'the input is unchanged')


class Listing(object):
    """An array by contract: tolist gives its nested list, or the number itself for one without dimensions."""

    def __init__(self, contents):
        self.contents = contents

    def tolist(self):
        return self.contents


def json_number(x):
    return str(x) if x != x or x in (float('inf'), -float('inf')) else x


@contract('C23', ['properties.math:Array.to_json'], trials=500)
def json_numbers():
    """to_json, of a single number or (nested) lists of any length: every nan and infinity becomes its text, every other number
    stays, in place; the array is not modified."""
    a = mkseq('a', lambda i: uf_float('a', i))
    form = choose('form', ['number', 'list', 'nested', 'deep'])
    n = any_float('number')
    contents = {'number': n, 'list': a, 'nested': [a, [n, 1.5], []], 'deep': [[[n]], [a]]}[form]
    before = snapshot(a)
    got = properties.Array.to_json(Listing(contents))
    want = [json_number(x) for x in a]
    m = json_number(n)
    if form == 'number':
        check(got == m and type(got) is type(m), 'a number')
    elif form == 'list':
        check(same_seq(got, want), 'a list')
    elif form == 'nested':
        check(len(got) == 3 and same_seq(got[0], want) and same_seq(got[1], [m, 1.5]) and len(got[2]) == 0, 'nested lists')
    else:
        check(len(got) == 2 and same(got[0][0][0], m) and len(got[0][0]) == 1 and same_seq(got[1][0], want), 'nested lists')
    check(same_seq(a, before), 'the array is not modified')


def float_array(r, shape):
    pool = [0., 1., -1.5, 2.25, 1e10, -1e-3] + ([float('nan'), float('inf'), float('-inf')] if r.random() < 0.5 else [])
    return np.array([r.choice(pool) for _ in range(int(np.prod(shape)))]).reshape(shape)


@bounded('C23', JSON, trials=1500)
def json_round_trip():
    """to_json gives strict JSON with the strings nan, inf and -inf; deserialize and from_json give an equal array back."""
    import json
    r = rng()
    kind = r.choice(['array', 'int', 'bool', 'vector', 'vector', 'vectors', 'vectors'])
    if kind in ('vector', 'vectors'):
        d = r.choice([2, 3])
        cls = getattr(properties, 'Vector%d%s' % (d, 'Array' if kind == 'vectors' else ''))
        p = cls('v')
        v = p.validate(None, float_array(r, (d,) if kind == 'vector' else (r.choice([1, 2, 4]), d)))
    else:
        shape = r.choice([(), (0,), (1,), (3,), (2, 3), (1, 1), (2, 0), (2, 1, 2), (1, 3, 1)])
        dt = {'array': r.choice([float, (float, int), (int, float)]), 'int': r.choice([int, (float, int)]),
              'bool': r.choice([bool, (bool, float)])}[kind]
        p = properties.Array('v', shape=None, dtype=dt)
        v = float_array(r, shape)
        if kind != 'array':
            v = np.array([r.choice([0, 1, -3, 7]) for _ in range(v.size)], dtype=int).reshape(shape)
        if kind == 'bool':
            v = v.astype(bool)
        if kind == 'array' and r.random() < 0.3:
            v = v.astype('f4')
        v = p.validate(None, v)
    note('case', (kind, repr(v)))
    before = frozen(v)
    text = json.dumps(p.to_json(v), allow_nan=False)
    check(frozen(v)[:3] == before[:3], 'the array is unchanged')
    js = json.loads(text)

    def words(a, b):
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(words(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and a != a:
            return b == 'nan'
        if a in (float('inf'), float('-inf')):
            return b == str(a)
        return a == b and type(b) is type(a)
    check(words(v.tolist(), js), 'the nested list of the values, nan and infinities as strings', lambda: text)
    check(json.dumps(p.serialize(v)) == text, 'serialize gives the same')
    keep = json.dumps(js)
    back = p.deserialize(js)
    check(json.dumps(js) == keep, 'the JSON value is unchanged')
    check(back.shape == v.shape and isinstance(back, type(v)), 'the shape and class come back', lambda: repr(back))
    check(p.equal(v, back) and p.equal(back, v), 'deserialize gives an equal array back', lambda: repr(back))
    p.validate(None, back)
    if kind in ('array', 'vector', 'vectors'):
        back = p.from_json(js)
        check(back.shape == v.shape and p.equal(v, back), 'from_json gives an equal array back', lambda: repr(back))


@bounded('C23', ['properties.math:Array.equal'], trials=3000)
def array_equal():
    """equal: same class, same shape, values within tolerance, nan only where nan is."""
    r = rng()
    d = r.choice([2, 3])
    p, w, shape = r.choice([
        (properties.Array('a', shape=None), np.array, tuple(r.randrange(4) for _ in range(r.randrange(3)))),
        (properties.Vector3('a'), vmath.Vector3, (3,)), (properties.Vector2('a'), vmath.Vector2, (2,)),
        (properties.Vector3Array('a'), vmath.Vector3Array, (d, 3)), (properties.Vector2Array('a'), vmath.Vector2Array, (d, 2))])
    a = w(float_array(r, shape))
    b = a.copy()
    how = r.choice(['same', 'same', 'nan', 'near', 'far', 'shape', 'class', 'other', 'edge', 'few', 'few'])
    same_ = True
    flat = np.asarray(b).reshape(-1) if b.size else None
    if how in ('nan', 'near', 'far') and flat is not None:
        i = r.randrange(flat.size)
        x = float(flat[i])
        flat[i] = {'nan': float('nan'), 'near': x + 1e-11, 'far': x * 1.01 + 0.01}[how]
        same_ = x != x or (how == 'near') or (how == 'far' and x in (float('inf'), float('-inf')))
        if x != x and how != 'nan':
            flat[i] = 1.
            same_ = False
    elif how == 'shape':
        b = np.zeros(tuple(shape) + (1,))
        same_ = False
    elif how == 'class':
        b = r.choice([a.tolist(), None, 5, 'text', np.asarray(a).view(type('Sub', (np.ndarray,), {}))])
        same_ = False
    elif how == 'other':
        b = r.choice([np.array(['a', 'b']), np.array([object()]), undefined])
        same_ = False
    elif how == 'few' and flat is not None:
        # few different values, so that the others agree where nan does not
        fa = np.asarray(a).reshape(-1)
        for i in range(flat.size):
            fa[i], flat[i] = r.choice([(1., 1.)] * 5 + [(float('nan'), 1.), (1., float('nan'))] + [(float('nan'),) * 2] * 2)
        same_ = all(x == y or (x != x and y != y) for x, y in zip(fa.tolist(), flat.tolist()))
    elif how == 'edge' and flat is not None:
        flat *= 1 + r.choice([1e-5, 1.000005e-5, 1.00001e-5])
    note('case', (how, repr(a), repr(b)))
    if how != 'edge':
        check(bool(p.equal(a, b)) == same_, 'equal')
    check(bool(p.equal(b, a)) == bool(p.equal(a, b)), 'equal is symmetric')
    check(p.equal(a, a), 'equal is reflexive')
