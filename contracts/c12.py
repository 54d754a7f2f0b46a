"""C12: deserialize picks the right class and honours trusted, strict and assert_valid."""
import properties
import six
from properties import undefined
from contracts.stubs import *    # noqa
from contracts import zoo as ZOO
from contracts import c17        # noqa
from pyvc.api import *           # noqa

DES = ['properties.base.base:HasProperties.deserialize', 'properties.base.base:HasProperties._deserialize_class',
       'properties.utils:filter_props', 'properties.basic:GettableProperty.deserialize', 'properties.basic:accept_kwargs',
       'properties.base.containers:Tuple.deserialize', 'properties.base.containers:Dictionary.deserialize',
       'properties.base.union:Union.deserialize', 'properties.base.instance:Instance.deserialize']
NAMES = ['x', 'y', 'z']
KW = [None, None, None, None]


@contract('C12', DES, trials=200)
def only_dictionaries():
    """Anything but a dictionary is rejected with ValueError."""
    v = any_value('value')
    assume(not isinstance(v, dict))
    try:
        Owner.deserialize(v, trusted=any_bool('trusted'), strict=any_bool('strict'), assert_valid=any_bool('assert_valid'))
    except ValueError:
        return
    fail('rejected with ValueError')


FAMILY = dict()


class Base(properties.HasProperties):
    _REGISTRY = FAMILY


class Derived(Base):
    pass


class Unrelated(properties.HasProperties):
    _REGISTRY = FAMILY


class Elsewhere(properties.HasProperties):
    _REGISTRY = dict()


@contract('C12', DES, trials=400)
def class_of_the_result():
    """Which class is built, for every registered name and any unregistered one."""
    cls = choose('called on', [Base, Derived, Unrelated, Elsewhere])
    kind = choose('name', ['absent', 'None', 'empty', 'registered', 'any text'])
    trusted, strict = any_bool('trusted'), any_bool('strict')
    registry = {'Base': Base, 'Derived': Derived, 'Unrelated': Unrelated} if cls is not Elsewhere else {'Elsewhere': Elsewhere}
    name = None
    value = {}
    if kind != 'absent':
        if kind == 'empty':
            name = ''
        elif kind == 'registered':
            name = choose('which', ['Base', 'Derived', 'Unrelated', 'Elsewhere'])
        elif kind == 'any text':
            name = any_str('other name')
            assume(name not in ('Base', 'Derived', 'Unrelated', 'Elsewhere'))
        value['__class__'] = name
    own = {Base: 'Base', Derived: 'Derived', Unrelated: 'Unrelated', Elsewhere: 'Elsewhere'}[cls]
    if not name or name == own:
        want = cls
    elif trusted and name in registry:
        want = registry[name]
    elif strict:
        want = None
    else:
        want = cls
    try:
        got = cls.deserialize(value, trusted=trusted, strict=strict)
        check(want is not None, 'with strict, another class is rejected')
        check(type(got) is want, 'the class is the right one')
    except ValueError:
        check(want is None, 'only with strict, a class that is not used is rejected')
    if kind == 'absent':
        check(len(value) == 0, 'the input is not modified')
    else:
        check(len(value) == 1 and value['__class__'] is name, 'the input is not modified')


class ByContract(type(properties.HasProperties)):
    """Construction by contract: the keywords are assigned."""

    def __call__(cls, **kwargs):
        KW[3] = kwargs
        return new_instance(cls, _backend={})


class Constructed(six.with_metaclass(ByContract, properties.HasProperties)):
    _REGISTRY = dict()


class DesProp(AbsProp):
    """deserialize by contract; assignment is recorded."""

    def deserialize(self, value, **kwargs):
        check(kwargs.get('trusted') is KW[0], 'trusted reaches every property')
        check(kwargs.get('strict') is KW[1], 'strict reaches every property')
        check(kwargs.get('extra') is KW[2] and len(kwargs) == 3, 'other keywords reach every property, and nothing else')
        return uf_value('loaded', self, value)

    def get_property(self):
        scope = self

        def fset(self, value):
            KW[3][scope.name] = value
        return property(fset=fset)


def des_prop(key):
    return abstract(DesProp, 'prop', (key,), prop_fields)


def world(strict, with_class):
    props = mkdict('props', des_prop, NAMES)
    assume('__class__' not in props)
    value = mkdict('value', lambda k: uf_value('json', k), NAMES + ['other', '__other__'])
    assume('__class__' not in value)
    if with_class and any_bool('class given'):
        value['__class__'] = None
    KW[0], KW[1], KW[2], KW[3] = any_bool('trusted'), strict, uf_value('extra', 0), {}
    return props, abs_class(Constructed, props), value


@contract('C12', DES, trials=500, slow=True)
def every_entry():
    """Any class, any dictionary: each entry is loaded by its property and assigned; nothing else is."""
    props, cls, value = world(False, False)
    inst = cls.deserialize(value, trusted=KW[0], strict=False, extra=KW[2])
    k = any_name('key', NAMES + ['other'])
    if k in props and k in value:
        check(same(KW[3].get(k, undefined), uf_value('loaded', props[k], value[k])), 'each entry is loaded by its property and assigned')
    else:
        check(k not in KW[3], 'nothing else is assigned')
    check(k not in inst._backend, 'or stored')


@contract('C12', DES, trials=500, slow=True)
def unused_keys():
    """With strict, exactly the dictionaries with an unused key are rejected."""
    props, cls, value = world(True, True)
    unused = False
    for k in value:
        if k not in props and k != '__class__':
            unused = True
            break
    try:
        cls.deserialize(value, trusted=KW[0], strict=True, extra=KW[2])
    except ValueError:
        check(unused, 'only unused keys are rejected')
        return
    check(not unused, 'unused keys are rejected')


class RawProp(AbsProp):
    def deserialize(self, value, **kwargs):
        if uf_rare('load raises', self, value):
            raise uf_exc('load error', self, value)
        return uf_value('loaded', self, value)

    def validate(self, instance, value):
        if uf_rare('rejects', self, value):
            raise properties.ValidationError('rejected')
        return uf_value('validated', self, value)


@contract('C12', DES, trials=300)
def one_entry():
    """A property of any kind and its error."""
    kind = choose('kind', ['settable', 'immutable', 'absent'])
    p = RawProp('doc', required=False)
    if kind == 'immutable':
        p = RawImmutable('doc')
    p.name = 'x'
    cls = abs_class(Owner, {'x': p})
    j = uf_value('json', 0)
    assume(uf_value('loaded', p, j) is not undefined)
    assume(uf_value('validated', p, uf_value('loaded', p, j)) is not undefined)
    value = {'x': j} if kind != 'absent' else {}
    try:
        inst = cls.deserialize(value, trusted=any_bool('trusted'), strict=any_bool('strict'))
    except BaseException as e:
        check(kind != 'absent', 'no error without an entry')
        if uf_rare('load raises', p, j):
            check(e is uf_exc('load error', p, j), 'the error of loading')
        else:
            check(uf_rare('rejects', p, uf_value('loaded', p, j)) and isinstance(e, ValueError), 'the error of validation')
        return
    if kind == 'absent':
        check('x' not in inst._backend, 'nothing is stored')
        return
    check(not uf_rare('load raises', p, j), 'errors of loading are not lost')
    loaded = uf_value('loaded', p, j)
    check(not uf_rare('rejects', p, loaded), 'the value is validated')
    check(same(getattr(inst, 'x'), uf_value('validated', p, loaded)), 'and the validated value stored')
    check(len(value) == 1 and same(value['x'], j), 'the input is not modified')


class RawImmutable(properties.GettableProperty):
    def deserialize(self, value, **kwargs):
        if uf_rare('load raises', self, value):
            raise uf_exc('load error', self, value)
        return uf_value('loaded', self, value)

    def validate(self, instance, value):
        if uf_rare('rejects', self, value):
            raise properties.ValidationError('rejected')
        return uf_value('validated', self, value)


class ValidatingOwner(Owner):
    """validate by contract."""

    def validate(self):
        log('validated')
        if uf_bool('validation raises', 0):
            raise properties.ValidationError('invalid')
        return uf_bool('is valid', 0)


@contract('C12', DES, trials=100)
def validity():
    """assert_valid requires the result to be valid."""
    assert_valid = any_bool('assert_valid')
    clear_trace()
    try:
        ValidatingOwner.deserialize({}, assert_valid=assert_valid)
    except ValueError:
        check(assert_valid and (uf_bool('validation raises', 0) or not uf_bool('is valid', 0)), 'only invalid results are rejected')
        return
    check(not assert_valid or (not uf_bool('validation raises', 0) and uf_bool('is valid', 0)), 'invalid results are rejected')


# ---------------------------------------------------------------- properties
def deserializer_kind(p):
    kind = choose('deserializer', ['none', 'value', 'keywords'])
    if kind == 'value':
        def plain(value):
            log('deserializer', value)
            return uf_value('custom', value)
        p.deserializer = plain
    elif kind == 'keywords':
        def full(value, **kwargs):
            log('deserializer', value, kwargs.get('trusted', 'absent'), kwargs.get('strict', 'absent'),
                kwargs.get('extra', 'absent'))
            return uf_value('custom', value)
        p.deserializer = full
    return kind


def keywords():
    kw = {}
    if any_bool('trusted given'):
        kw['trusted'] = any_bool('trusted')
    if any_bool('strict given'):
        kw['strict'] = any_bool('strict')
    if any_bool('extra'):
        kw['extra'] = uf_value('extra', 0)
    return kw


def given(kw, name, default='absent'):
    return kw.get(name, default)


def custom_calls(kind, v, kw):
    if kind == 'value':
        return [('deserializer', v)]
    return [('deserializer', v, given(kw, 'trusted', False), given(kw, 'strict'), given(kw, 'extra'))]


class JsonProp(properties.Property):
    @staticmethod
    def from_json(value, **kwargs):
        log('from_json', value, kwargs.get('trusted', 'absent'), kwargs.get('strict', 'absent'), kwargs.get('extra', 'absent'))
        if uf_rare('from_json raises', value):
            raise uf_exc('from_json error', value)
        return uf_value('python', value)


@contract('C12', DES, trials=600)
def one_property():
    """Property.deserialize: the registered deserializer, or from_json except for None."""
    p = JsonProp('doc', required=False)
    kind = deserializer_kind(p)
    kw = keywords()
    v = uf_value('value', 0)
    clear_trace()
    failed = None
    try:
        got = p.deserialize(v, **kw)
    except BaseException as e:
        failed = e
    if kind != 'none':
        check(failed is None and same(got, uf_value('custom', v)), 'the deserializer gives the result')
        check(same_seq(trace(), custom_calls(kind, v, kw)), 'called once with the keywords')
    elif v is None:
        check(failed is None and got is None and same_seq(trace(), []), 'None is None')
    else:
        check(same_seq(trace(), [('from_json', v, given(kw, 'trusted', False), given(kw, 'strict'), given(kw, 'extra'))]),
              'from_json is called once, with the keywords')
        if uf_rare('from_json raises', v):
            check(failed is not None and failed is uf_exc('from_json error', v), 'its error is raised')
        else:
            check(failed is None and same(got, uf_value('python', v)), 'its result is the result')


class ElementProp(AbsProp):
    def deserialize(self, value, **kwargs):
        log('element', self, value, kwargs.get('trusted', 'absent'), kwargs.get('strict', 'absent'), kwargs.get('extra', 'absent'))
        if uf_rare('element raises', self, value):
            raise uf_exc('element error', self, value)
        return uf_value('element', self, value)


@contract('C12', DES, trials=600, slow=True)
def sequence_property():
    """Tuple.deserialize and List.deserialize, of any sequence."""
    cls = choose('kind', [properties.Tuple, properties.List])
    p = cls('doc', properties.Property('e'), required=False)
    elem = abstract(ElementProp, 'prop', (), lambda: prop_fields('element'))
    p._prop = elem
    kind = deserializer_kind(p)
    kw = keywords()
    v = mkseq('value', lambda i: uf_value('item', i)) if any_bool('a value') else None
    want, calls, failed = [], [], None
    if v is not None:
        for x in v:
            calls.append(('element', elem, x, given(kw, 'trusted', False), given(kw, 'strict'), given(kw, 'extra')))
            if uf_rare('element raises', elem, x):
                failed = uf_exc('element error', elem, x)
                break
            want.append(uf_value('element', elem, x))
    clear_trace()
    try:
        got = p.deserialize(v, **kw)
        check(kind != 'none' or failed is None, 'errors are not lost')
        if kind != 'none':
            check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the deserializer gives the result')
        elif v is None:
            check(got is None and same_seq(trace(), []), 'None is None')
        else:
            check(isinstance(got, tuple if cls is properties.Tuple else list), 'the result is of the right class')
            check(same_seq(got, want), 'of the loaded elements, in order')
    except BaseException as e:
        check(failed is not None and e is failed, 'the error of an element is raised')
    if kind == 'none':
        check(same_seq(trace(), calls), 'every element once, with the keywords')


class KeyProp(AbsProp):
    def deserialize(self, value, **kwargs):
        check(same(kwargs.get('trusted', 'absent'), KW[0]) and same(kwargs.get('strict', 'absent'), KW[1])
              and same(kwargs.get('extra', 'absent'), KW[2]), 'the keywords reach the keys')
        return value


class ValueProp(AbsProp):
    def deserialize(self, value, **kwargs):
        check(same(kwargs.get('trusted', 'absent'), KW[0]) and same(kwargs.get('strict', 'absent'), KW[1])
              and same(kwargs.get('extra', 'absent'), KW[2]), 'the keywords reach the values')
        return uf_value('element', value)


@contract('C12', DES, trials=600, slow=True)
def dictionary_property():
    """Dictionary.deserialize, of any dictionary with text keys."""
    p = properties.Dictionary('doc', required=False)
    p._key_prop = abstract(KeyProp, 'key', (), lambda: prop_fields('key'))
    p._value_prop = abstract(ValueProp, 'value', (), lambda: prop_fields('value'))
    kind = deserializer_kind(p)
    kw = keywords()
    KW[0], KW[1], KW[2] = given(kw, 'trusted', False), given(kw, 'strict'), given(kw, 'extra')
    v = mkdict('value', lambda k: uf_value('item', k), NAMES) if any_bool('a value') else None
    clear_trace()
    got = p.deserialize(v, **kw)
    if kind != 'none':
        check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the deserializer gives the result')
    elif v is None:
        check(got is None, 'None is None')
    else:
        check(got is not v, 'a new dictionary')
        k = any_name('key', NAMES)
        check((k in got) == (k in v), 'with the same keys')
        if k in v:
            check(same(got[k], uf_value('element', v[k])), 'and every value loaded')


class RenamingKey(AbsProp):
    def deserialize(self, value, **kwargs):
        return uf_str('key', value)


@contract('C12', DES, trials=200)
def dictionary_keys():
    """Keys are loaded by the key property, also those of None; what it makes of them are the keys."""
    p = properties.Dictionary('doc', required=False)
    p._key_prop = abstract(RenamingKey, 'key', (), lambda: prop_fields('key'))
    k = choose('key', ['a', '', None, 1])
    got = p.deserialize({k: 'x'})
    check(type(got) is dict and len(got) == 1, 'a new dictionary')
    for key in got:
        check(key == uf_str('key', k) and got[key] == 'x', 'every key is loaded')


class Held(properties.HasProperties):
    _REGISTRY = dict()

    @classmethod
    def deserialize(cls, value, trusted='absent', strict='absent', assert_valid='absent', **kwargs):
        log('held', value, trusted, strict, assert_valid, kwargs.get('extra', 'absent'), len(kwargs))
        if uf_rare('held raises', value):
            raise uf_exc('held error', value)
        return uf_value('held', value)


@contract('C12', DES, trials=600)
def instance_property():
    """Instance.deserialize: the deserialize of its class, with the keywords."""
    p = properties.Instance('doc', Held, required=False)
    kind = deserializer_kind(p)
    kw = keywords()
    v = uf_value('value', 0)
    clear_trace()
    try:
        got = p.deserialize(v, **kw)
        if kind != 'none':
            check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the deserializer gives the result')
        elif v is None:
            check(got is None and same_seq(trace(), []), 'None is None')
        else:
            check(not uf_rare('held raises', v), 'errors are not lost')
            check(same(got, uf_value('held', v)), 'its result')
    except BaseException as e:
        check(kind == 'none' and v is not None and uf_rare('held raises', v) and e is uf_exc('held error', v), 'its error is raised')
    if kind == 'none' and v is not None:
        check(same_seq(trace(), [('held', v, given(kw, 'trusted', False), given(kw, 'strict'), 'absent', given(kw, 'extra'),
                                  1 if 'extra' in kw else 0)]), 'called once, with the keywords')


# ---------------------------------------------------------------- bounded
SHOP = dict()


class Person(properties.HasProperties):
    _REGISTRY = SHOP
    name = properties.String('name')
    age = properties.Integer('age', min=0, max=150, required=False)
    uid = properties.Uuid('unique')
    nick = properties.Renamed('name', warn=False)
    tags = properties.List('tags', properties.String('t'), default=list)

    @properties.String('label')
    def label(self):
        return 'label of ' + (self.name or '')

    @label.setter
    def label(self, value):
        Person.set_calls += 1

    set_calls = 0


class Pilot(Person):
    hours = properties.Float('hours', default=0.0)


class Plane(properties.HasProperties):
    _REGISTRY = SHOP
    pilot = properties.Instance('pilot', Person, required=False)
    crew = properties.List('crew', Person, required=False)
    seats = properties.Dictionary('seats', key_prop=properties.String('s'), value_prop=Person, required=False)
    cargo = properties.Union('cargo', [properties.Integer('kg'), Person], required=False)
    code = properties.String('code', required=False, change_case='upper')


class Stranger(properties.HasProperties):
    _REGISTRY = dict()


UID = '12345678-1234-5678-1234-567812345678'
BAD = object()


def random_person(r, names=('Person', 'Pilot', 'Plane', 'Stranger', 'Nobody', '')):
    j = {}
    if r.random() < 0.85:
        j['name'] = r.choice(['Ann', 'Bob', ''])
    if r.random() < 0.5:
        j['age'] = r.choice([0, 30, 150, '7', 7.0])
    if r.random() < 0.08:
        j['age'] = r.choice([-1, 151, 'old', [3]])
    if r.random() < 0.3:
        j['uid'] = UID
    if r.random() < 0.06:
        j['uid'] = 'nonsense'
    if r.random() < 0.3:
        j['tags'] = r.choice([[], ['a'], ['a', 'b']])
    if r.random() < 0.06:
        j['tags'] = [5]
    if r.random() < 0.3:
        j['hours'] = r.choice([1, 2.5, 'inf'])
    if r.random() < 0.2:
        j['label'] = r.choice(['label of Ann', 'other'])
    if r.random() < 0.15:
        j['extra'] = r.choice([1, None])
    if r.random() < 0.6:
        j['__class__'] = r.choice(names)
    return j


def load_person(j, asked, trusted, strict, registry=SHOP):
    """(class, {stored values}) or BAD when it must be rejected."""
    cls = which_class(j, asked, trusted, strict, registry)
    if cls is BAD:
        return BAD
    known = set(cls._props)
    if strict and any(k not in known and k != '__class__' for k in j):
        return BAD
    if cls in (Person, Pilot):
        out = {'tags': []}
        if cls is Pilot:
            out['hours'] = 0.0
        for k, v in j.items():
            if k == 'age' and v is not None:
                if isinstance(v, list) or v == 'old' or not 0 <= int(v) <= 150:
                    return BAD
                out['age'] = int(v)
            elif k == 'uid':
                if v != UID:
                    return BAD
                out['uid'] = UID
            elif k == 'tags':
                if v is not None and any(not isinstance(x, str) for x in v):
                    return BAD
                if v is None:
                    out.pop('tags')
                else:
                    out['tags'] = v
            elif k == 'hours' and cls is Pilot:
                out['hours'] = float(v)
            elif k == 'name':
                out['name'] = v
            elif k == 'nick' and v is not None:
                out['name'] = v
        return cls, out
    if cls is not Plane:
        return cls, {}
    out = {}
    for k, v in j.items():
        if k == 'pilot' and v is not None:
            x = load_as(v, Person, trusted, strict)
            if x is BAD:
                return BAD
            out[k] = x
        elif k == 'crew' and v is not None:
            xs = [load_as(x, Person, trusted, strict) for x in v]
            if BAD in xs:
                return BAD
            out[k] = xs
        elif k == 'seats' and v is not None:
            xs = {a: load_as(x, Person, trusted, strict) for a, x in v.items()}
            if BAD in xs.values():
                return BAD
            out[k] = xs
        elif k == 'code' and v is not None:
            out[k] = v.upper()
    return cls, out


def which_class(j, asked, trusted, strict, registry):
    name = j.get('__class__')
    if not name or name == asked.__name__:
        return asked
    if trusted and name in registry:
        return registry[name]
    return BAD if strict else asked


def load_as(j, base, trusted, strict):
    x = load_person(j, base, trusted, strict)
    if x is BAD or not issubclass(x[0], base):
        return BAD
    return x


def describe(x):
    if isinstance(x, properties.HasProperties):
        out = {}
        for k, v in x._backend.items():
            if v is None or v is undefined:
                continue
            out[k] = describe(v)
        return type(x), out
    if isinstance(x, dict):
        return {k: describe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [describe(v) for v in x]
    if type(x).__name__ == 'UUID':
        return str(x)
    return x


def with_uid(want, got):
    """A uid that is not given is generated."""
    if isinstance(want, tuple) and isinstance(got, tuple) and len(want) == 2 and isinstance(want[1], dict):
        w = {k: with_uid(v, got[1].get(k)) for k, v in want[1].items()}
        if issubclass(want[0], Person) and 'uid' not in w and 'uid' in got[1]:
            w['uid'] = got[1]['uid']
        return want[0], w
    if isinstance(want, dict) and isinstance(got, dict):
        return {k: with_uid(v, got.get(k)) for k, v in want.items()}
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        return [with_uid(a, b) for a, b in zip(want, got)]
    return want


def required_ok(x):
    """Does the described instance have all required values?"""
    if isinstance(x, tuple):
        if issubclass(x[0], Person) and 'name' not in x[1]:
            return False
        if issubclass(x[0], Person) and 'tags' not in x[1]:
            return False
        if x[0] is Pilot and 'hours' not in x[1]:
            return False
        return all(required_ok(v) for v in x[1].values())
    if isinstance(x, dict):
        return all(required_ok(v) for v in x.values())
    if isinstance(x, list):
        return all(required_ok(v) for v in x)
    return True


@bounded('C12', DES, trials=6000)
def real_dictionaries():
    """Random dictionaries with all combinations of the arguments, against a model of the documented behaviour."""
    import copy
    r = rng()
    trusted, strict, assert_valid = r.random() < 0.5, r.random() < 0.5, r.random() < 0.4
    quiet = ('Person', 'Pilot', '')
    if r.random() < 0.6:
        asked, j = r.choice([Person, Pilot, Stranger]), random_person(r)
    else:
        asked, j = Plane, {}
        if r.random() < 0.5:
            j['pilot'] = random_person(r, quiet)
        if r.random() < 0.4:
            j['crew'] = [random_person(r, quiet) for _ in range(r.randint(0, 2))]
        if r.random() < 0.4:
            j['seats'] = {k: random_person(r, quiet) for k in r.sample(['1a', '2b'], r.randint(0, 2))}
        if r.random() < 0.4:
            j['code'] = r.choice(['ab', 'AB'])
        if r.random() < 0.2:
            j['extra'] = 5
        if r.random() < 0.5:
            j['__class__'] = r.choice(['Plane', 'Person', 'Nobody', 'Stranger'])
    if r.random() < 0.15 and asked is not Plane and 'name' not in j:
        j['nick'] = 'Nick'
    note('input', (asked.__name__, repr(j), trusted, strict, assert_valid))
    saved = copy.deepcopy(j)
    registry = SHOP if asked is not Stranger else Stranger._REGISTRY
    want = load_person(j, asked, trusted, strict, registry)
    Person.set_calls = 0
    try:
        x = asked.deserialize(j, trusted=trusted, strict=strict, assert_valid=assert_valid)
    except ValueError as e:
        check(want is BAD or assert_valid and not required_ok(want), 'only what must be rejected is', repr(e))
    except (TypeError, AttributeError, KeyError) as e:
        check(want is BAD, 'only what must be rejected is', repr(e))
    else:
        check(want is not BAD, 'what must be rejected is')
        check(not assert_valid or required_ok(want), 'with assert_valid the result is valid')
        got = describe(x)
        check(got == with_uid(want, got), 'the right class and values', (got, want))
        check(not ZOO.shared(x, j), 'the instance shares nothing with the input')
    check(Person.set_calls == 0, 'computed properties are not assigned')
    check(j == saved and repr(j) == repr(saved), 'the input dictionary is not modified')


@bounded('C12', DES, trials=400)
def nothing_is_notified():
    """Values are validated by property and class validators, and no observer is called."""
    r = rng()
    seen = []

    class Watched(properties.HasProperties):
        _REGISTRY = dict()
        a = properties.Integer('a', required=False)
        b = properties.List('b', properties.Integer('i'), required=False)

        @properties.observer('a')
        def _o(self, change):
            seen.append(('observer', change['value']))

        @properties.validator
        def _valid(self):
            seen.append('class validator')
            if self.a == 13:
                raise properties.ValidationError('unlucky')
    j = {}
    if r.random() < 0.7:
        j['a'] = r.choice([1, 13, 2.0, '3'])
    if r.random() < 0.5:
        j['b'] = r.choice([[], [1, 2], [13]])
    assert_valid = r.random() < 0.5
    note('input', (j, assert_valid))
    try:
        x = Watched.deserialize(dict(j), assert_valid=assert_valid)
        check(not assert_valid or j.get('a') != 13, 'an invalid instance is rejected')
        check(x.a == (None if 'a' not in j else int(j['a'])), 'the value')
    except ValueError:
        check(assert_valid and j.get('a') == 13, 'only an invalid instance is rejected')
    check([s for s in seen if s != 'class validator'] == [], 'no observer is called', seen)
    check(('class validator' in seen) == assert_valid, 'validated exactly when asked for', seen)
