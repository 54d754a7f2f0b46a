"""C17: Union uses the first accepting property; Instance accepts or constructs."""
import properties
import properties.extras
import six
from properties import undefined
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from contracts import c11, c12   # noqa
from contracts import zoo as ZOO
from pyvc.api import *           # noqa

UN = ['properties.base.union:Union.validate', 'properties.base.union:Union._try_prop_method',
      'properties.base.union:Union.assert_valid', 'properties.base.union:Union.deserialize',
      'properties.base.union:Union.equal', 'properties.base.union:Union.props']
INST = ['properties.base.instance:Instance.validate', 'properties.base.instance:Instance.assert_valid',
        'properties.base.instance:Instance.instance_class']
CODES = [ValueError, TypeError, KeyError, AttributeError]


class Odd(Exception):
    """An error that is not a rejection."""


def reject(kind):
    """Every kind of error that counts as a rejection."""
    if kind == 1:
        raise TypeError('rejected')
    if kind == 2:
        raise KeyError('rejected')
    if kind == 3:
        raise AttributeError('rejected')
    if kind == 4:
        raise properties.ValidationError('rejected', 'invalid', 'x', None)
    raise ValueError('rejected')


class Member(properties.Property):
    """validate, assert_valid, equal and deserialize by contract: any functions; they may reject or raise."""

    def validate(self, instance, value):
        log('validate', self, instance, value)
        if uf_rare('validate raises', self, value):
            raise Odd('validate error')
        if uf_bool('rejects', self, value):
            reject(uf_int('rejects how', self, value))
        return uf_value('validated', self, value)

    def assert_valid(self, instance, value=None):
        if uf_rare('assert raises', self, value):
            raise Odd('assert error')
        if uf_bool('not valid', self, value):
            reject(uf_int('not valid how', self, value))
        return True

    def equal(self, value_a, value_b):
        return uf_bool('equal', self, value_a, value_b)


def member(i):
    return abstract(Member, 'member', (i,))


def union_of(members):
    p = properties.Union('doc', [], required=False)
    p._props = members
    p._name = 'x'
    return p


@contract('C17', UN, trials=600, slow=True)
def first_accepting():
    """Union.validate with any number of props, any value."""
    members = mkseq('props', member)
    p = union_of(members)
    inst = choose('instance', [None, Owner()])
    v = uf_value('value', 0)
    by, failed, calls = None, False, []
    for m in members:
        calls.append(('validate', m, inst, v))
        if uf_rare('validate raises', m, v):
            failed = True
            break
        if not uf_bool('rejects', m, v):
            by = m
            break
    clear_trace()
    try:
        got = p.validate(inst, v)
        check(not failed and by is not None, 'a value that no prop accepts is rejected')
        check(same(got, uf_value('validated', by, v)), 'the result of the first prop that accepts the value')
    except BaseException as e:
        check(by is None, 'a value that some prop accepts is accepted')
        if failed:
            check(type(e) is Odd, 'other errors are raised')
        else:
            check(isinstance(e, ValueError), 'the rejection is a ValueError')
    check(same_seq(trace(), calls), 'the props are asked in order, until one accepts')


class SerialMember(Member):
    def serialize(self, value, **kwargs):
        log('serialize', self, value, kwargs.get('include_class', 'absent'), kwargs.get('extra', 'absent'))
        return uf_value('serialized', self, value)


def serial_member(i):
    return abstract(SerialMember, 'member', (i,))


@contract('C17', UN + ['properties.base.union:Union.serialize'], trials=600, slow=True)
def serializing():
    """Union.serialize with any number of props: the first prop that accepts the value serializes it."""
    members = mkseq('props', serial_member)
    p = union_of(members)
    v = uf_value('value', 0)
    assume(v is not None and not isinstance(v, properties.HasProperties))
    by, failed = None, False
    for m in members:
        if uf_rare('validate raises', m, v):
            failed = True
            break
        if not uf_bool('rejects', m, v):
            by = m
            break
    classes = choose('include_class', ['absent', True, False])
    kw = {} if classes == 'absent' else {'include_class': classes}
    if any_bool('extra'):
        kw['extra'] = uf_value('extra', 0)
    clear_trace()
    try:
        got = p.serialize(v, **kw)
    except BaseException as e:
        check(failed and type(e) is Odd, 'only other errors of the props are raised')
        return
    check(not failed, 'other errors are not lost')
    if by is None:
        check(same(got, v), 'a value that no prop accepts is passed through')
        return
    check(same(got, uf_value('serialized', by, v)), 'serialized by the first prop that accepts the value')
    last = trace()[-1]
    check(last[0] == 'serialize' and last[1] is by and same(last[3], kw.get('include_class', True)) and
          same(last[4], kw.get('extra', 'absent')), 'with the keywords')


class AssertMember(Member):
    def validate(self, instance, value):
        if uf_bool('rejects', self, value):
            raise ValueError('rejected')
        return uf_value('validated', self, value)

    def assert_valid(self, instance, value=None):
        log('assert', self, instance, value)
        if uf_bool('not valid', self, value):
            raise ValueError('not valid')
        return True

    def equal(self, value_a, value_b):
        return value_a is value_b or uf_bool('equal', self, value_a, value_b)


def assert_member(i):
    return abstract(AssertMember, 'member', (i,))


@contract('C17', UN, trials=900, slow=True)
def asserting():
    """Union.assert_valid: accepted by one of the props' assert_valid, of a value that is valid."""
    members = mkseq('props', assert_member)
    p = union_of(members)
    stored = any_bool('read from the instance')
    v = uf_value('value', 0)
    inst = new_instance(abs_class(Owner, {}), _backend={'x': v} if any_bool('stored') else {})
    value = None if stored else v
    if stored:
        v = inst._backend.get('x', None)
    by, ok = None, None
    for m in members:
        if not uf_bool('rejects', m, v):
            by = m
            break
    for m in members:
        if not uf_bool('not valid', m, v):
            ok = m
            break
    unchanged = False
    if by is not None:
        w = uf_value('validated', by, v)
        for m in members:
            if v is w or uf_bool('equal', m, v, w):
                unchanged = True
                break
    try:
        got = p.assert_valid(inst, value)
        check(got is True, 'it returns True')
        check(v is None or ok is not None, 'some prop asserts that the value is valid')
        check(v is None or by is not None and unchanged, 'and it is a validated value')
    except BaseException as e:
        check(isinstance(e, ValueError), 'the rejection is a ValueError')
        check(v is not None, 'an absent value is valid')
        check(ok is None or by is None or not unchanged, 'only invalid values are rejected')


class DesMember(properties.Property):
    def validate(self, instance, value):
        if uf_bool('rejects', self, value):
            raise ValueError('rejected')
        return uf_value('validated', self, value)

    def deserialize(self, value, **kwargs):
        log('load', self, value)
        check(kwargs.get('trusted', 'absent') is KW[0] and bool(kwargs.get('strict')) is KW[1]
              and kwargs.get('extra', 'absent') is KW[2], 'the keywords reach the prop')
        if uf_bool('load rejects', self, value):
            raise ValueError('rejected')
        return uf_value('loaded', self, value)

    @staticmethod
    def from_json(value, **kwargs):
        return value


KW = [None, None, None]


def des_member(i):
    return abstract(DesMember, 'member', (i,))


class InstMember(properties.Instance):
    """An Instance prop of a class with any name."""

    @property
    def instance_class(self):
        return abstract(AnyClass, 'class', (self,))

    def validate(self, instance, value):
        if uf_bool('rejects', self, value):
            raise ValueError('rejected')
        return uf_value('validated', self, value)

    def deserialize(self, value, **kwargs):
        log('load', self, value)
        check(kwargs.get('trusted', 'absent') is KW[0] and bool(kwargs.get('strict')) is KW[1]
              and kwargs.get('extra', 'absent') is KW[2], 'the keywords reach the prop')
        if uf_bool('load rejects', self, value):
            raise ValueError('rejected')
        return uf_value('loaded', self, value)


class AnyClass(object):
    @property
    def __name__(self):
        return uf_str('class name', self)


def inst_member(i):
    return abstract(InstMember, 'instance member', (i,))


def keywords():
    KW[0], KW[1], KW[2] = any_bool('trusted'), any_bool('strict'), uf_value('extra', 0)
    return {'trusted': KW[0], 'strict': KW[1], 'extra': KW[2]}


@contract(['C17', 'C12'], UN, trials=900, slow=True)
def loading():
    """Union.deserialize with any number of props of any kind."""
    members = mkseq('props', des_member)
    p = union_of(members)
    kw = keywords()
    v = uf_value('value', 0)
    assume(not isinstance(v, (properties.HasProperties, dict)))
    by = None
    for m in members:
        if not uf_bool('load rejects', m, v) and not uf_bool('rejects', m, uf_value('loaded', m, v)):
            by = m
            break
    clear_trace()
    got = p.deserialize(v, **kw)
    if v is None:
        check(got is None, 'None is None')
    elif by is not None:
        check(same(got, uf_value('loaded', by, v)), 'the first prop whose loaded value validates gives the result')
    else:
        check(same(got, v), 'otherwise the value is passed on')


@contract(['C17', 'C12'], UN, trials=900, slow=True)
def loading_instances():
    """Union.deserialize of a dictionary that names its class."""
    members = mkseq('props', inst_member)
    p = union_of(members)
    kw = keywords()
    name = any_str('class name')
    assume(name != '')
    v = {'__class__': name}
    by, named = None, None
    for m in members:
        if m.instance_class.__name__ == name:
            named = m
            break
    for m in members:
        if not uf_bool('load rejects', m, v) and not uf_bool('rejects', m, uf_value('loaded', m, v)):
            by = m
            break
    clear_trace()
    try:
        got = p.deserialize(v, **kw)
    except ValueError:
        check(named is not None and uf_bool('load rejects', named, v), 'only errors of the named class are raised')
        return
    if named is not None:
        check(not uf_bool('load rejects', named, v), 'errors of the named class are not lost')
        check(same(got, uf_value('loaded', named, v)), 'the first prop of the named class gives the result')
        check(same_seq(trace(), [('load', named, v)]), 'and no other is asked')
    elif by is not None:
        check(same(got, uf_value('loaded', by, v)), 'the first prop whose loaded value validates gives the result')
    else:
        check(got is v, 'otherwise the value is passed on')


@contract('C17', UN, trials=900, slow=True)
def loading_mixed():
    """The same with an Instance prop anywhere among the others."""
    one = inst_member(0)
    members = mkseq('props', des_member) + [one] + mkseq('more props', des_member)
    p = union_of(members)
    kw = keywords()
    name = any_str('class name')
    v = {'__class__': name} if any_bool('class named') else {}
    by = None
    for m in members:
        if not uf_bool('load rejects', m, v) and not uf_bool('rejects', m, uf_value('loaded', m, v)):
            by = m
            break
    named = '__class__' in v and name != '' and name == one.instance_class.__name__
    try:
        got = p.deserialize(v, **kw)
    except ValueError:
        check(named and uf_bool('load rejects', one, v), 'only errors of the named class are raised')
        return
    if named:
        check(not uf_bool('load rejects', one, v), 'errors of the named class are not lost')
        check(same(got, uf_value('loaded', one, v)), 'the prop of the named class gives the result')
    elif by is not None:
        check(same(got, uf_value('loaded', by, v)), 'the first prop whose loaded value validates gives the result')
    else:
        check(got is v, 'otherwise the value is passed on')


# ---------------------------------------------------------------- Instance
class Built(object):
    """Any class: construction may fail."""

    def __init__(self, *args, **kwargs):
        log('built', len(args), args[0] if len(args) else 'absent', kwargs.get('a', 'absent'), kwargs.get('b', 'absent'), len(kwargs))
        if uf_rare('construction raises', 0):
            raise Odd('construction error')
        if uf_bool('construction rejects', 0):
            reject(uf_int('how', 0))


class Sub(Built):
    pass


@contract('C17', INST, trials=900)
def accept_or_construct():
    """Instance.validate: any value."""
    p = properties.Instance('doc', Built, required=False)
    p.name = 'x'
    inst = choose('instance', [None, Owner()])
    kind = choose('value', ['instance', 'subclass', 'dict', 'other'])
    if kind == 'instance':
        v = new_instance(Built)
    elif kind == 'subclass':
        v = new_instance(Sub)
    elif kind == 'dict':
        v = {}
        if any_bool('a given'):
            v['a'] = uf_value('a', 0)
        if any_bool('b given'):
            v['b'] = uf_value('b', 0)
    else:
        v = any_value('any')
        assume(not isinstance(v, (Built, dict)))
    clear_trace()
    failed = None
    try:
        got = p.validate(inst, v)
    except BaseException as e:
        failed = e
    if kind in ('instance', 'subclass'):
        check(failed is None and got is v, 'an instance is returned unchanged')
        check(same_seq(trace(), []), 'and nothing is constructed')
        return
    if kind == 'dict':
        check(same_seq(trace(), [('built', 0, 'absent', v.get('a', 'absent'), v.get('b', 'absent'), len(v))]),
              'one construction, with the keywords')
    else:
        check(same_seq(trace(), [('built', 1, v, 'absent', 'absent', 0)]), 'one construction, with the value')
    if uf_rare('construction raises', 0):
        check(type(failed) is Odd, 'other errors are raised')
    elif uf_bool('construction rejects', 0):
        check(failed is not None and isinstance(failed, properties.ValidationError), 'the rejection is a ValidationError')
        check(failed.error_tuples[0].prop == 'x' and failed.error_tuples[0].instance is inst, 'of this property')
    else:
        check(failed is None and type(got) is Built, 'an instance of the class')


class Table(dict):
    """A class whose instances are dictionaries themselves."""


@contract('C17', INST, trials=300)
def dictionary_instances():
    """An instance_class that is dict, or a dict: its instances are still returned unchanged, not taken for keywords."""
    cls = choose('class', [dict, Table])
    p = properties.Instance('doc', cls, required=False)
    p.name = 'x'
    v = Table() if any_bool('of the subclass') else {}
    if any_bool('first key'):
        v['one'] = uf_value('value', 1)
    if any_bool('second key'):
        v[choose('key', ['two', 5, None])] = uf_value('value', 2)
    size = len(v)
    if cls is Table and not isinstance(v, Table):
        assume(all(isinstance(k, str) for k in v))
        got = p.validate(None, v)
        check(type(got) is Table and got is not v and len(got) == size, 'a dictionary gives the keywords of an instance')
        check(all(same(got[k], v[k]) for k in v), 'with their values')
    else:
        check(p.validate(None, v) is v, 'an instance is returned unchanged')
    check(len(v) == size, 'the dictionary is not modified')


class Held(properties.HasProperties):
    """validate by contract."""

    _REGISTRY = dict()

    def validate(self):
        log('validated', self)
        if uf_rare('validation raises', self):
            raise uf_exc('validation error', self)
        return True


@contract('C17', INST, trials=400)
def asserting_instance():
    """Instance.assert_valid: the stored instance is validated."""
    p = properties.Instance('doc', Held, required=False)
    p._name = 'x'
    v = new_instance(abs_class(Held, {}))
    where = choose('value', ['given', 'stored', 'absent'])
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={} if where == 'absent' else {'x': v})
    clear_trace()
    failed = None
    try:
        got = p.assert_valid(inst, v) if where == 'given' else p.assert_valid(inst)
    except BaseException as e:
        failed = e
    if where == 'absent':
        check(failed is None and got is True and same_seq(trace(), []), 'an absent value is valid')
        return
    check(same_seq(trace(), [('validated', v)]), 'the instance is validated')
    if uf_rare('validation raises', v):
        check(failed is not None and failed is uf_exc('validation error', v), 'its errors are raised')
    else:
        check(failed is None and got is True, 'otherwise it is valid')


@contract('C17', INST, trials=200)
def instance_class_setter():
    """Only classes are accepted as instance_class."""
    v = any_value('instance_class')
    assume(not isinstance(v, type))
    try:
        properties.Instance('doc', v)
    except TypeError:
        return
    fail('what is not a class is rejected')


@contract('C17', UN, trials=200)
def props_setter():
    """Only lists of properties and HasProperties classes are accepted as props."""
    good = choose('good', ['none', 'property', 'class'])
    v = any_value('bad')
    where = choose('where', ['instead', 'in it'])
    if where == 'instead':
        assume(not isinstance(v, (list, tuple)))
        props = v
    else:
        assume(not isinstance(v, (type, properties.basic.Property)))
        props = [] if good == 'none' else [properties.Integer('i')] if good == 'property' else [Held]
        props = props + [v]
    try:
        properties.Union('doc', props)
    except TypeError:
        return
    fail('what is not a property is rejected')


# ---------------------------------------------------------------- bounded
class Point(properties.HasProperties):
    _REGISTRY = dict()
    x = properties.Integer('x')
    y = properties.Integer('y', min=0, required=False)
    tag = properties.String('tag', required=False)


class Segment(properties.HasProperties):
    _REGISTRY = dict()
    start = properties.Instance('start', Point, required=False)
    length = properties.Float('length', min=0, required=False)


class Longer(Segment):
    more = properties.Integer('more', required=False)


def plain_kinds(r):
    """(property, what it does to a value: the result or REJECT), independent of the property's own code."""
    def integer(lo, hi):
        def f(v):
            if not isinstance(v, (int, float)) or v != v or v in (float('inf'), float('-inf')):
                return REJECT
            if int(v) != v or not lo <= int(v) <= hi:
                return REJECT
            return int(v)
        return properties.Integer('i', min=lo, max=hi), f

    def boolean():
        return properties.Boolean('b'), lambda v: v if isinstance(v, bool) else REJECT

    def string():
        return properties.String('s', change_case='upper'), lambda v: v.upper() if isinstance(v, str) else REJECT

    def choice():
        return (properties.StringChoice('c', {'one': ['1', 'eins'], 'two': []}),
                lambda v: ({'one': 'one', 'two': 'two', '1': 'one', 'eins': 'one'}.get(v.lower(), REJECT)) if isinstance(v, str) else REJECT)

    def numbers():
        p, f = integer(-5, 5)

        def g(v):
            if not isinstance(v, list):
                return REJECT
            out = [f(x) for x in v]
            return REJECT if REJECT in out else out
        return properties.List('l', p), g

    def point():
        def g(v):
            if isinstance(v, Point):
                return v
            if not isinstance(v, dict) or any(k not in ('x', 'y', 'tag') for k in v):
                return REJECT
            for k in ('x', 'y'):
                if k in v and (isinstance(v[k], str) or v[k] is None or int(v[k]) != v[k]):
                    return REJECT
            if v.get('y', 0) < 0 or not isinstance(v.get('tag', ''), str):
                return REJECT
            return ('Point', {k: v[k] for k in v})
        return r.choice([properties.Instance('p', Point), Point]), g

    def segment():
        def g(v):
            if isinstance(v, Segment):
                return v
            if not isinstance(v, dict) or any(k != 'length' for k in v):
                return REJECT
            if 'length' in v and (not isinstance(v['length'], (int, float)) or isinstance(v['length'], bool) or v['length'] < 0):
                return REJECT
            return ('Segment', {k: float(v[k]) for k in v})
        return properties.Instance('s', Segment), g

    return r.choice([lambda: integer(0, 3), lambda: integer(-100, 100), boolean, string, choice, numbers, point, segment])()


REJECT = ('reject',)


def some_value(r):
    return r.choice([0, 1, 3, 50, -7, 200, 2.0, 2.5, True, False, 'one', 'EINS', 'word', '', [], [1, 2], [9], ['a'], (1,),
                     Point(x=1), Segment(), Longer(more=2), {'x': 1}, {'x': 1, 'y': -1}, {'length': 2}, {'length': -2}, {},
                     {'nonsense': 1}, {'tag': 't'}, float('nan'), object(), Point])


def view(v):
    if isinstance(v, (Point, Segment)):
        return type(v).__name__, {k: w for k, w in v._backend.items() if w is not undefined}
    return type(v).__name__, v


@bounded('C17', UN + INST, trials=8000)
def real_unions():
    """Random unions and values, against a model of every kind of prop."""
    r = rng()
    kinds = [plain_kinds(r) for _ in range(r.randint(1, 4))]
    p = properties.Union('u', [k[0] for k in kinds], required=False)
    v = some_value(r)
    wants = [k[1](v) for k in kinds]
    accepted = [i for i, w in enumerate(wants) if w is not REJECT]
    note('props', ([type(q).__name__ for q in p.props], repr(v)))
    cls = type(str('Zoo17'), (properties.HasProperties,), {'_REGISTRY': dict(), 'u': p})
    x = cls()
    how = r.choice(['validate', 'assign', 'nested'])
    before = repr(v)
    try:
        if how == 'validate':
            got = p.validate(r.choice([None, x]), v)
        elif how == 'assign':
            x.u = v
            got = x.u
        else:
            got = properties.Union('outer', [properties.StringChoice('no', ['never']), p]).validate(None, v)
    except properties.ValidationError as e:
        check(not accepted, 'a value that some prop accepts is accepted', repr(e))
        check(isinstance(e, properties.ValidationError), 'the rejection is a ValidationError')
        if how != 'nested':
            check(e.error_tuples[0].prop == 'u', 'of this property')
        if how == 'assign':
            check('u' not in x._backend, 'nothing is stored')
        return
    check(repr(v) == before, 'the value is not modified')
    check(len(accepted) > 0, 'a value that no prop accepts is rejected')
    i = accepted[0]
    want = wants[i]
    if isinstance(want, tuple):
        check(view(got) == want, 'the result of the first accepting prop', (view(got), want))
    elif isinstance(want, (Point, Segment)):
        check(got is want, 'an instance is returned unchanged')
    else:
        check(type(got) is type(want) or isinstance(want, list) and isinstance(got, list), 'the type of its result')
        check(got == want, 'the result of the first accepting prop', (got, want))
    # the validated value belongs to the first prop that accepts it
    first = [i for i, k in enumerate(kinds) if k[1](got) is not REJECT][0]
    check(p.serialize(got) == p.props[first].serialize(got), 'it is serialized by the first prop that accepts it')
    check(p.serialize(got, include_class=False) == p.props[first].serialize(got, include_class=False), 'also without classes')
    x.u = got
    if isinstance(got, Point) and got.x is None or isinstance(got, Segment) and got.start is None:
        try:
            x.validate()
        except properties.ValidationError as e:
            check('required' in str(e), 'a nested instance that is not valid is not')
        return
    check(x.validate() is True, 'a validated value is valid')
    if how == 'assign' and isinstance(got, Point):
        got._backend['y'] = -5
        for f in (x.validate, lambda: p.assert_valid(x), lambda: p.assert_valid(x, got)):
            try:
                f()
                check(not isinstance(p.props[first], properties.Instance), 'the nested instance is validated')
            except properties.ValidationError:
                check(True, 'rejected')


def message_of(e):
    return e.error_tuples[0].message


@bounded('C17', UN + INST, trials=1500)
def messages():
    """The rejection reports what the alternatives had to say."""
    r = rng()
    p = properties.Instance('point', Point, required=False)
    p.name = 'attr'
    bad = r.choice([{'x': 'word'}, {'x': 1, 'y': -3}, {'tag': 7}, {'tag': 7, 'x': 'w'}, {'nope': 1}, 5, 'word', [1]])
    note('value', repr(bad))
    try:
        p.validate(None, bad)
        fail('the value is rejected')
    except properties.ValidationError as e:
        single = e
    own = []
    if isinstance(bad, dict):
        try:
            Point(**bad)
        except properties.ValidationError as e:
            own = [t.message for t in e.error_tuples]
        except AttributeError:
            pass
    for m in own:
        check(m in message_of(single), 'the messages of the construction are reported', (m, message_of(single)))
    others = [properties.Instance('other', Segment), properties.Integer('i', max=3), properties.Boolean('b'), Segment]
    props = r.sample(others, r.randint(0, 3))
    props.insert(r.randint(0, len(props)), p)
    u = properties.Union('u', props, required=False)
    u.name = 'attr'
    if bad == 5 or not isinstance(bad, (int, dict)):
        try:
            u.validate(None, bad)
            fail('the value is rejected')
        except properties.ValidationError as e:
            text = message_of(e)
        for q in u.props:
            try:
                q.validate(None, bad)
            except properties.ValidationError as e:
                check(message_of(e) in text, 'every alternative is explained', (message_of(e), text))


@bounded('C17', UN, trials=3000)
def real_loading():
    """Unions that are loaded from JSON: the named class, else the first that validates."""
    r = rng()
    names = dict()

    class A(properties.HasProperties):
        _REGISTRY = names
        a = properties.Integer('a', required=False)

    class B(properties.HasProperties):
        _REGISTRY = names
        b = properties.Integer('b')

    class A2(A):
        c = properties.Integer('c', min=0, required=False)
    options = [A, B, A2, properties.Integer('i', max=9), properties.DateTime('u'), properties.String('s', change_case='lower'),
               properties.List('l', A), properties.Float('f', max=100)]
    chosen = r.sample(options, r.randint(1, 4))
    strict_instances = r.random() < 0.3
    u = properties.Union('u', chosen, required=False)
    if strict_instances:
        u.strict_instances = True
    j = r.choice([5, 50, 'inf', 'WORD', '1995-08-12T18:00:00Z', [{'a': 1}], [], 7.5, '3', '3.5', None])
    if r.random() < 0.6:
        j = {}
        for k, vs in (('a', [1, 'word', 2.0]), ('b', [3, 4]), ('c', [5, -1])):
            if r.random() < 0.45:
                j[k] = r.choice(vs)
        if r.random() < 0.7:
            j['__class__'] = r.choice(['A', 'B', 'A2', 'Other', ''])
    trusted, strict = r.random() < 0.5, r.random() < 0.3
    kw = {'trusted': trusted, 'strict': strict}
    note('input', ([getattr(c, '__name__', type(c).__name__) for c in chosen], repr(j), kw, strict_instances))
    need = {'strict': strict or strict_instances, 'trusted': trusted}
    saved = repr(j)

    def load(prop):
        """What the alternative alone gives."""
        if isinstance(prop, type):
            return prop.deserialize(j, assert_valid=strict_instances, **need)
        if isinstance(prop, properties.List):
            return prop.deserialize(j, assert_valid=strict_instances, **need)
        return prop.deserialize(j, **need)

    want, error = REJECT, None
    if j is None:
        want = None
    elif isinstance(j, dict) and j.get('__class__') in [c.__name__ for c in chosen if isinstance(c, type)]:
        named = [c for c in chosen if isinstance(c, type) and c.__name__ == j['__class__']][0]
        try:
            want = load(named)
        except ValueError as e:
            error = e
    else:
        for c in chosen:
            q = properties.Instance('', c) if isinstance(c, type) else c
            try:
                w = load(c)
                q.validate(None, w)
            except (ValueError, TypeError, KeyError, AttributeError):
                continue
            want = w
            break
        if want is REJECT:
            want = j
    try:
        got = u.deserialize(j, **kw)
    except ValueError as e:
        check(error is not None, 'only errors of the named class are raised', repr(e))
        return
    check(error is None, 'errors of the named class are raised')
    check(repr(j) == saved, 'the input is not modified')
    check(type(got) is type(want), 'the class of the result', (type(got), type(want)))
    if isinstance(want, properties.HasProperties):
        check(properties.equal(got, want), 'its values')
    elif isinstance(want, list):
        check(len(got) == len(want) and all(type(a) is type(b) and (properties.equal(a, b) if isinstance(a, A) else a == b)
                                            for a, b in zip(got, want)), 'its values')
    else:
        check(got == want, 'its value', (got, want))
