"""C04: numeric properties."""
import math
import properties
from contracts.common import *
from pyvc.api import (contract, bounded, check, assume, cover, any_value, any_int, any_bool, any_float, choose,
                      fail, same)

TOL = 1e-9


def opt_bound(name):
    k = choose(name + '?', ['none', 'int', 'float'])
    if k == 'none':
        return None
    if k == 'int':
        return any_int(name)
    f = any_float(name)
    assume(not math.isnan(f))
    return f


def bounded_prop(cls):
    cast = any_bool('cast')
    mn = opt_bound('min')
    mx = opt_bound('max')
    p = cls('doc', cast=cast)
    if mn is not None and mx is not None:
        assume(mn <= mx)
    p.min = mn
    p.max = mx
    return p, cast, mn, mx


@contract('C04', ['properties.basic:Integer.validate', 'properties.basic:_in_bounds'], trials=600)
def integer_validate():
    """Integer.validate: an int within tolerance and bounds, or ValueError; idempotent."""
    p, cast, mn, mx = bounded_prop(properties.Integer)
    value = any_value('value')
    try:
        r = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        return
    cover('accepted')
    check(isinstance(r, int), 'the result is an int')
    if mn is not None:
        check(r >= mn, 'the result is at least min')
    if mx is not None:
        check(r <= mx, 'the result is at most max')
    if not cast and isinstance(value, (int, float)):
        check(abs(value - r) <= TOL, 'without cast the result is within tolerance')
    if isinstance(value, int) and not isinstance(value, bool):
        check(r == value, 'an int is returned as it is')
    r2 = p.validate(None, r)
    check(same(r2, r), 'validating the result again returns it')
    check(p.equal(r, r2), 'the result equals itself')


@contract('C04', ['properties.basic:Integer.validate'], trials=300)
def integer_accepts():
    """Integer.validate accepts every int in range (and every number close to one)."""
    p, cast, mn, mx = bounded_prop(properties.Integer)
    v = any_int('value')
    if mn is not None:
        assume(v >= mn)
    if mx is not None:
        assume(v <= mx)
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        fail('an int in range is accepted')
    check(r == v, 'and returned unchanged')


@contract('C04', ['properties.basic:Float.validate', 'properties.basic:_in_bounds'], trials=600)
def float_validate():
    """Float.validate: a float within tolerance and bounds, or ValueError; idempotent."""
    p, cast, mn, mx = bounded_prop(properties.Float)
    value = any_value('value')
    try:
        r = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        return
    cover('accepted')
    check(isinstance(r, float), 'the result is a float')
    if mn is not None and not math.isnan(r):
        check(r >= mn, 'the result is at least min')
    if mx is not None and not math.isnan(r):
        check(r <= mx, 'the result is at most max')
    if not cast and isinstance(value, (int, float)) and not math.isnan(r) and not math.isinf(r):
        check(abs(value - r) <= TOL, 'without cast the result is within tolerance')
    if isinstance(value, float):
        check(same(r, value), 'a float is returned as it is')
    r2 = p.validate(None, r)
    check(same(r2, r), 'validating the result again returns it')
    check(p.equal(r, r2), 'the result equals itself')


@contract('C04', ['properties.basic:Float.validate'], trials=300)
def float_accepts():
    """Float.validate accepts every float in range."""
    p, cast, mn, mx = bounded_prop(properties.Float)
    v = any_float('value')
    if mn is not None:
        assume(v >= mn)
    if mx is not None:
        assume(v <= mx)
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        fail('a float in range is accepted')
    check(same(r, v), 'and returned unchanged')


@contract('C04', ['properties.basic:Float.validate'], trials=100)
def float_converts_ints():
    """Float.validate turns an int in range into the equal float."""
    p, cast, mn, mx = bounded_prop(properties.Float)
    v = any_int('value')
    assume(-2 ** 53 <= v <= 2 ** 53)
    if mn is not None:
        assume(v >= mn)
    if mx is not None:
        assume(v <= mx)
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        fail('an int in range is accepted')
    check(isinstance(r, float) and r == v, 'and returned as the same float')


@contract('C04', ['properties.basic:Complex.validate', 'properties.basic:Complex.equal'], trials=500)
def complex_validate():
    """Complex.validate: a complex within tolerance or ValueError; idempotent."""
    p = properties.Complex('doc', cast=any_bool('cast'))
    value = any_value('value')
    try:
        r = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        check(not isinstance(value, complex), 'a complex number is accepted')
        check(not isinstance(value, float), 'a float is accepted')
        return
    cover('accepted')
    check(isinstance(r, complex), 'the result is complex')
    if isinstance(value, complex):
        check(same(r, value), 'a complex number is returned as it is')
    if not p.cast and isinstance(value, (int, float)):
        check(not abs(value.real - r.real) > TOL, 'the real part is within tolerance')
        check(not abs(r.imag) > TOL, 'the imaginary part is within tolerance')


@contract('C04', ['properties.basic:Integer.validate', 'properties.basic:Float.validate', 'properties.basic:Complex.validate'],
          trials=200)
def text_needs_cast():
    """Text is converted to a number only with cast."""
    kind = choose('kind', [properties.Integer, properties.Float, properties.Complex])
    p = kind('doc', cast=False)
    value = choose('text', ['1', '1.5', b'1', '1e3', 'inf', 'nan', '', ' 2 ', '2j', any_str('any text')])
    try:
        p.validate(None, value)
    except properties.ValidationError:
        return
    fail('without cast, text is rejected')


@contract('C04', ['properties.basic:Complex.validate', 'properties.basic:Complex.equal'], trials=300)
def complex_again():
    """Every complex number validates to itself and equals itself."""
    p = properties.Complex('doc', cast=any_bool('cast'))
    v = complex(any_float('re'), any_float('im'))
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        fail('a complex number is accepted')
    check(same(r, v), 'and returned as it is')
    check(p.equal(r, v), 'and equals itself')


@contract('C04', ['properties.basic:Boolean.validate'], trials=400)
def boolean_validate():
    """Boolean.validate: booleans only, or the truth value with cast."""
    cast = any_bool('cast')
    p = properties.Boolean('doc', cast=cast)
    value = any_value('value')
    try:
        r = p.validate(None, value)
    except ValueError:
        cover('rejected')
        check(not isinstance(value, bool), 'a boolean is accepted')
        return
    cover('accepted')
    if cast:
        check(isinstance(r, bool), 'the result is a bool')
        check(r == bool(value), 'the truth value of the input')
    else:
        check(r is value, 'the result is the input')
        check(isinstance(value, properties.basic.BOOLEAN_TYPES), 'only booleans are accepted')
    r2 = p.validate(None, r)
    check(same(r2, r), 'validating the result again returns it')
    check(p.equal(r, r2), 'the result equals itself')


@contract('C04', ['properties.basic:Integer.min', 'properties.basic:Integer.max'], trials=300)
def bounds_enforced():
    """min <= max in whatever order and however often they are set."""
    cls = choose('cls', [properties.Integer, properties.Float])
    p = cls('doc')
    p.min = opt_bound('min0')
    try:
        p.max = opt_bound('max0')
    except TypeError:
        cover('max refused')
    if p.min is not None and p.max is not None:
        check(p.min <= p.max, 'min <= max after setting max')
    a = opt_bound('min1')
    old = p.min
    try:
        p.min = a
    except TypeError:
        cover('min refused')
        check(p.max is not None and a > p.max, 'only inconsistent bounds are refused')
        check(same(p.min, old), 'a refused bound changes nothing')
        return
    check(same(p.min, a), 'an accepted bound is stored')
    if p.min is not None and p.max is not None:
        check(p.min <= p.max, 'min <= max after setting min')
    b = opt_bound('max1')
    old = p.max
    try:
        p.max = b
    except TypeError:
        check(p.min is not None and b < p.min, 'only inconsistent bounds are refused')
        check(same(p.max, old), 'a refused bound changes nothing')
        return
    check(same(p.max, b), 'an accepted bound is stored')
    if p.min is not None and p.max is not None:
        check(p.min <= p.max, 'min <= max after setting max')


@contract('C04', ['properties.basic:Float.equal', 'properties.basic:_close'], trials=300)
def float_equal():
    """Float.equal: within tolerance, or both the same infinity, or both nan; symmetric."""
    p = properties.Float('doc')
    a, b = any_float('a'), any_float('b')
    r = p.equal(a, b)
    if math.isnan(a) or math.isnan(b):
        check(bool(r) == (math.isnan(a) and math.isnan(b)), 'nan equals only nan')
    elif math.isinf(a) or math.isinf(b):
        check(bool(r) == (a == b), 'an infinity equals only itself')
    else:
        check(bool(r) == (abs(a - b) <= TOL), 'finite floats are equal within tolerance')
    check(bool(p.equal(b, a)) == bool(r), 'equality is symmetric')


@contract('C04', ['properties.basic:Integer.equal'], trials=100)
def integer_equal():
    p = properties.Integer('doc')
    a, b = any_int('a'), any_int('b')
    check(bool(p.equal(a, b)) == (a == b), 'integers are equal iff they are the same number')
