"""C11: serialize writes exactly the stored properties, each by its own serializer."""
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

SER = ['properties.base.base:HasProperties.serialize', 'properties.basic:GettableProperty.serialize',
       'properties.basic:accept_kwargs', 'properties.basic:DynamicProperty.serialize',
       'properties.base.containers:Tuple.serialize', 'properties.base.containers:Dictionary.serialize',
       'properties.base.union:Union.serialize', 'properties.base.instance:Instance.serialize']
NAMES = ['x', 'y', 'z']


class SerProp(AbsProp):
    """serialize by contract: any function of the value, given the keywords of the call; it may raise."""

    def serialize(self, value, **kwargs):
        log('serialize', self.name, value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
            kwargs.get('extra', 'absent'), len(kwargs))
        if uf_rare('serialize raises', self, value):
            raise uf_exc('serialize error', self, value)
        return uf_value('serialized', self, value)


def ser_prop(key):
    return abstract(SerProp, 'prop', (key,), prop_fields)


class QuietProp(AbsProp):
    """serialize by contract, without errors."""

    def serialize(self, value, **kwargs):
        check(kwargs.get('include_class') is KW[0], 'include_class reaches every serializer')
        check(kwargs.get('save_dynamic') is KW[1], 'save_dynamic reaches every serializer')
        check(kwargs.get('extra') is KW[2] and len(kwargs) == 3, 'other keywords reach every serializer')
        return uf_value('serialized', self, value)


KW = [None, None, None]


def quiet_prop(key):
    return abstract(QuietProp, 'prop', (key,), prop_fields)


def keywords(with_extra):
    kw = {}
    if any_bool('include_class given'):
        kw['include_class'] = any_bool('include_class')
    if any_bool('save_dynamic given'):
        kw['save_dynamic'] = any_bool('save_dynamic')
    if with_extra:
        kw['extra'] = uf_value('extra', 0)
    return kw


@contract('C11', SER, trials=600, slow=True)
def calls_of_an_instance():
    """Which serializers are called, with what, in any instance; and what happens when one fails."""
    dynamic = any_bool('save dynamic')
    with_class = any_bool('with class')
    extra = any_bool('extra')
    props = mkdict('props', ser_prop, NAMES)
    cls = abs_class(Owner, props)
    stored = {k: uf_value('stored', k) for k in props if uf_bool('has', k)}
    inst = new_instance(cls, _backend=stored)
    kw = {'extra': uf_value('extra', 0)} if extra else {}
    source = props if dynamic else stored
    want, failed = [], None
    for k in source:
        p, v = props[k], stored.get(k, None)
        want.append(('serialize', k, v, with_class, dynamic, kw.get('extra', 'absent'), 3 if extra else 2))
        if uf_rare('serialize raises', p, v):
            failed = uf_exc('serialize error', p, v)
            break
    clear_trace()
    try:
        inst.serialize(include_class=with_class, save_dynamic=dynamic, **kw)
        check(failed is None, 'errors of serializers are not lost')
    except BaseException as e:
        check(failed is not None and e is failed, 'the error of the serializer is raised')
    check(same_seq(trace(), want), 'every stored property is serialized, once, by its own serializer, with the keywords')
    check(inst._backend is stored, 'the instance is not modified')


def result_of_an_instance(dynamic):
    KW[0], KW[1], KW[2] = any_bool('with class'), dynamic, uf_value('extra', 0)
    props = mkdict('props', quiet_prop, NAMES)
    assume('__class__' not in props)
    cls = abs_class(Owner, props)
    stored = {k: uf_value('stored', k) for k in props if uf_bool('has', k)}
    inst = new_instance(cls, _backend=stored)
    result = inst.serialize(include_class=KW[0], save_dynamic=dynamic, extra=KW[2])
    check(inst._backend is stored, 'the instance is not modified')
    check(('__class__' in result) == KW[0], 'the class is named exactly when asked for')
    if KW[0]:
        check(result['__class__'] == 'Owner', 'with its name')
        return
    k = any_name('key', NAMES)
    if k in props and (dynamic or uf_bool('has', k)):
        v = uf_value('serialized', props[k], stored.get(k, None))
        check(same(result.get(k, None), v), 'each property has its serialized value')
        check((k in result) == (v is not None), 'and is absent if that is None')
    else:
        check(k not in result, 'nothing else is in the result')


@contract('C11', SER, trials=400, slow=True)
def result_of_stored():
    """The dictionary that is returned, for any instance."""
    result_of_an_instance(False)


@contract('C11', SER, trials=400, slow=True)
def result_with_dynamic():
    """The dictionary that is returned with save_dynamic, for any instance."""
    result_of_an_instance(True)


def serializer_kind(p):
    """Register a serializer, of either signature, or none."""
    kind = choose('serializer', ['none', 'value', 'keywords'])
    if kind == 'value':
        def plain(value):
            log('serializer', value)
            return uf_value('custom', value)
        p.serializer = plain
    elif kind == 'keywords':
        def full(value, **kwargs):
            log('serializer', value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
                kwargs.get('extra', 'absent'))
            return uf_value('custom', value)
        p.serializer = full
    return kind


def given(kw, name, default='absent'):
    return kw.get(name, default)


def custom_calls(kind, v, kw):
    if kind == 'value':
        return [('serializer', v)]
    return [('serializer', v, given(kw, 'include_class', True), given(kw, 'save_dynamic'), given(kw, 'extra'))]


class JsonProp(properties.Property):
    """to_json by contract."""

    @staticmethod
    def to_json(value, **kwargs):
        log('to_json', value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
            kwargs.get('extra', 'absent'))
        if uf_rare('to_json raises', value):
            raise uf_exc('to_json error', value)
        return uf_value('json', value)


@contract('C11', SER, trials=600)
def one_property():
    """Property.serialize: the registered serializer, or to_json except for None."""
    p = JsonProp('doc', required=False)
    kind = serializer_kind(p)
    kw = keywords(any_bool('extra'))
    v = uf_value('value', 0)
    clear_trace()
    failed = None
    try:
        got = p.serialize(v, **kw)
    except BaseException as e:
        failed = e
    if kind != 'none':
        check(failed is None and same(got, uf_value('custom', v)), 'the serializer gives the result')
        check(same_seq(trace(), custom_calls(kind, v, kw)), 'called once with the keywords')
    elif v is None:
        check(failed is None and got is None and same_seq(trace(), []), 'None is None')
    else:
        check(same_seq(trace(), [('to_json', v, given(kw, 'include_class', True), given(kw, 'save_dynamic'),
                                  given(kw, 'extra'))]), 'to_json is called once, with the keywords')
        if uf_rare('to_json raises', v):
            check(failed is not None and failed is uf_exc('to_json error', v), 'its error is raised')
        else:
            check(failed is None and same(got, uf_value('json', v)), 'its result is the result')


class ElementProp(AbsProp):
    def serialize(self, value, **kwargs):
        log('element', self, value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
            kwargs.get('extra', 'absent'))
        if uf_rare('element raises', self, value):
            raise uf_exc('element error', self, value)
        return uf_value('element', self, value)


def element_prop(which):
    return abstract(ElementProp, which, (), lambda: prop_fields('element'))


@contract('C11', SER, trials=600, slow=True)
def sequence_property():
    """Tuple.serialize and List.serialize, of any sequence."""
    p = choose('kind', [properties.Tuple, properties.List])('doc', properties.Property('e'), required=False)
    elem = element_prop('prop')
    p._prop = elem
    kind = serializer_kind(p)
    kw = keywords(any_bool('extra'))
    v = mkseq('value', lambda i: uf_value('item', i)) if any_bool('a value') else None
    want, calls, failed = [], [], None
    if v is not None:
        for x in v:
            calls.append(('element', elem, x, given(kw, 'include_class', True), given(kw, 'save_dynamic'), given(kw, 'extra')))
            if uf_rare('element raises', elem, x):
                failed = uf_exc('element error', elem, x)
                break
            want.append(uf_value('element', elem, x))
    clear_trace()
    try:
        got = p.serialize(v, **kw)
        check(kind != 'none' or failed is None, 'errors are not lost')
        if kind != 'none':
            check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the serializer gives the result')
        elif v is None:
            check(got is None and same_seq(trace(), []), 'None is None')
        else:
            check(isinstance(got, list), 'the result is a list')
            check(same_seq(got, want), 'of the serialized elements, in order')
            check(got is not v, 'a new one')
    except BaseException as e:
        check(failed is not None and e is failed, 'the error of an element is raised')
    if kind == 'none':
        check(same_seq(trace(), calls), 'every element once, with the keywords')


class UnionMember(properties.Property):
    def validate(self, instance, value):
        if uf_bool('member rejects', self, value):
            if uf_bool('with a TypeError', self):
                raise TypeError('rejected')
            raise ValueError('rejected')
        return uf_value('validated', self, value)

    def serialize(self, value, **kwargs):
        log('member', self, value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
            kwargs.get('extra', 'absent'))
        return uf_value('member', self, value)


def union_member(i):
    return abstract(UnionMember, 'member', (i,))


@contract('C11', SER, trials=600, slow=True)
def union_property():
    """Union.serialize: the first prop that accepts the value, of any number of props."""
    members = mkseq('props', union_member)
    p = properties.Union('doc', [], required=False)
    p._props = members
    kind = serializer_kind(p)
    kw = keywords(any_bool('extra'))
    v = uf_value('value', 0)
    assume(not isinstance(v, properties.HasProperties))
    by = None
    for m in members:
        if not uf_bool('member rejects', m, v):
            by = m
            break
    clear_trace()
    got = p.serialize(v, **kw)
    if kind != 'none':
        check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the serializer gives the result')
    elif v is None:
        check(got is None and same_seq(trace(), []), 'None is None')
    elif by is not None:
        check(same(got, uf_value('member', by, v)), 'the first prop that accepts it')
        check(same_seq(trace(), [('member', by, v, given(kw, 'include_class', True), given(kw, 'save_dynamic'), given(kw, 'extra'))]),
              'is called once, with the keywords')
    else:
        check(same_seq(trace(), []) and same(got, v), 'no other prop serializes it')


class Held(properties.HasProperties):
    _REGISTRY = dict()

    def serialize(self, include_class='absent', save_dynamic='absent', **kwargs):
        log('held', self, include_class, save_dynamic, kwargs.get('extra', 'absent'), len(kwargs))
        if uf_rare('held raises', self):
            raise uf_exc('held error', self)
        return uf_value('held', self)


@contract('C11', SER, trials=600)
def instance_property():
    """Instance.serialize: the instance's own serialize, with the keywords."""
    p = properties.Instance('doc', Held, required=False)
    kind = serializer_kind(p)
    with_extra = any_bool('extra')
    kw = keywords(with_extra)
    v = new_instance(Held) if any_bool('a value') else None
    clear_trace()
    try:
        got = p.serialize(v, **kw)
        if kind != 'none':
            check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the serializer gives the result')
        elif v is None:
            check(got is None and same_seq(trace(), []), 'None is None')
        else:
            check(not uf_rare('held raises', v), 'errors are not lost')
            check(same(got, uf_value('held', v)), 'its own result')
    except BaseException as e:
        check(kind == 'none' and v is not None and uf_rare('held raises', v) and e is uf_exc('held error', v), 'its error is raised')
    if kind == 'none' and v is not None:
        check(same_seq(trace(), [('held', v, given(kw, 'include_class', True), given(kw, 'save_dynamic'), given(kw, 'extra'),
                                  1 if with_extra else 0)]), 'serialized once, with the keywords')


@contract('C11', SER, trials=300)
def dynamic_property():
    """A dynamic property is serialized by its prop."""
    def x(self):
        return 5
    p = properties.basic.DynamicProperty('doc', x, properties.Property('inner'))
    inner = element_prop('prop')
    p._prop = inner
    kw = keywords(any_bool('extra'))
    v = uf_value('value', 0)
    assume(not uf_rare('element raises', inner, v))
    clear_trace()
    check(same(p.serialize(v, **kw), uf_value('element', inner, v)), 'by the prop')
    check(same_seq(trace(), [('element', inner, v, given(kw, 'include_class'), given(kw, 'save_dynamic'), given(kw, 'extra'))]),
          'with the keywords')


@contract('C11', ['properties.base.instance:Instance.to_json', 'properties.base.union:Union.to_json',
                  'properties.base.containers:Tuple.to_json', 'properties.base.containers:Dictionary.to_json'], trials=300)
def static_to_json():
    """to_json of Instances, Unions and containers, called directly, passes the keywords to nested instances."""
    kind = choose('kind', ['instance', 'union', 'tuple', 'list', 'set', 'dictionary'])
    kw = keywords(any_bool('extra'))
    v = new_instance(Held)
    assume(not uf_rare('held raises', v))
    clear_trace()
    if kind == 'instance':
        got = properties.Instance.to_json(v, **kw)
    elif kind == 'union':
        got = properties.Union.to_json(v, **kw)
    elif kind == 'dictionary':
        d = properties.Dictionary.to_json({'k': v, 'n': 5}, **kw)
        check(isinstance(d, dict) and len(d) == 2 and d['n'] == 5, 'the other values are kept')
        got = d['k']
    else:
        p = {'tuple': properties.Tuple, 'list': properties.List, 'set': properties.Set}[kind]
        seq = p.to_json([v, 5] if kind != 'tuple' else (v, 5), **kw)
        check(isinstance(seq, list) and len(seq) == 2 and seq[1] == 5, 'the other values are kept')
        got = seq[0]
    check(same(got, uf_value('held', v)), 'its own result')
    check(same_seq(trace(), [('held', v, given(kw, 'include_class'), given(kw, 'save_dynamic'), given(kw, 'extra'),
                              1 if 'extra' in kw else 0)]), 'serialized once, with the keywords')


class KeyProp(AbsProp):
    """Serializes a key to itself."""

    def serialize(self, value, **kwargs):
        check(same(kwargs.get('include_class', 'absent'), KW[0]) and same(kwargs.get('save_dynamic', 'absent'), KW[1])
              and same(kwargs.get('extra', 'absent'), KW[2]), 'the keywords reach the keys')
        return value


class ValueProp(AbsProp):
    def serialize(self, value, **kwargs):
        check(same(kwargs.get('include_class', 'absent'), KW[0]) and same(kwargs.get('save_dynamic', 'absent'), KW[1])
              and same(kwargs.get('extra', 'absent'), KW[2]), 'the keywords reach the values')
        return uf_value('element', value)


@contract('C11', SER, trials=600, slow=True)
def dictionary_property():
    """Dictionary.serialize, of any dictionary with text keys."""
    p = properties.Dictionary('doc', required=False)
    p._key_prop = abstract(KeyProp, 'key', (), lambda: prop_fields('key'))
    p._value_prop = abstract(ValueProp, 'value', (), lambda: prop_fields('value'))
    kind = serializer_kind(p)
    kw = keywords(any_bool('extra'))
    KW[0], KW[1], KW[2] = given(kw, 'include_class', True), given(kw, 'save_dynamic'), given(kw, 'extra')
    v = mkdict('value', lambda k: uf_value('item', k), NAMES) if any_bool('a value') else None
    clear_trace()
    got = p.serialize(v, **kw)
    if kind != 'none':
        check(same(got, uf_value('custom', v)) and same_seq(trace(), custom_calls(kind, v, kw)), 'the serializer gives the result')
    elif v is None:
        check(got is None, 'None is None')
    else:
        check(got is not v, 'a new dictionary')
        k = any_name('key', NAMES)
        check((k in got) == (k in v), 'with the same keys')
        if k in v:
            check(same(got[k], uf_value('element', v[k])), 'and every value serialized')


class RenamingKey(AbsProp):
    def serialize(self, value, **kwargs):
        return uf_str('key', value)


@contract('C11', SER, trials=200)
def dictionary_keys():
    """Keys are serialized by the key property, also None; what it makes of them are the keys."""
    p = properties.Dictionary('doc', required=False)
    p._key_prop = abstract(RenamingKey, 'key', (), lambda: prop_fields('key'))
    k = choose('key', ['a', '', None, 1])
    got = p.serialize({k: 'x'})
    check(type(got) is dict and len(got) == 1, 'a new dictionary')
    for key in got:
        check(key == uf_str('key', k) and got[key] == 'x', 'every key is serialized')


def sets_sorted(k, j):
    """The expected JSON, where the order of a set's elements is free, with sets sorted."""
    if j is None:
        return j
    if k.tag == 'set':
        return sorted(j, key=repr)
    if k.tag in ('list', 'tuple'):
        return [sets_sorted(k.kids[0], x) for x in j]
    if k.tag == 'dictionary':
        return {a: sets_sorted(k.kids[1], b) for a, b in j.items()}
    if k.tag in ('instance', 'union') and isinstance(j, dict):
        kinds = ZOO.REG[j['__class__']]._kinds
        return {a: b if a == '__class__' else sets_sorted(kinds[a], b) for a, b in j.items()}
    return j


def without_class(j):
    if isinstance(j, dict):
        return {k: without_class(v) for k, v in j.items() if k != '__class__' or not (isinstance(v, str) and v.startswith('Zoo'))}
    if isinstance(j, list):
        return [without_class(v) for v in j]
    return j


from contracts import zoo as ZOO


@bounded('C11', SER, trials=700)
def real_classes():
    """Random classes with every kind of property, against the documented JSON form of each."""
    import json
    r = rng()
    ZOO.REG.clear()
    cls, kinds = ZOO.random_class(r, 2, 4)
    x = ZOO.make_instance(r, cls, kinds)
    note('kinds', [k.tag for k in kinds.values()])
    before = ZOO.canon(ZOO.js_instance(x))
    want = ZOO.js_instance(x)
    got = x.serialize()
    plain = {n: v if n == '__class__' else sets_sorted(kinds[n], v) for n, v in got.items()}
    check(ZOO.canon(plain) == ZOO.canon(want), 'the documented form', (plain, want))
    json.loads(json.dumps(got))
    check(not ZOO.shared(x._backend, got), 'the result shares nothing with the instance')
    check(ZOO.canon(ZOO.js_instance(x)) == before, 'the instance is not modified')
    bare = x.serialize(include_class=False)
    check(ZOO.canon(bare) == ZOO.canon(without_class(got)), 'without the names of classes', (bare, got))
    for n, v in x._backend.items():
        a = cls._props[n].serialize(v)
        check(ZOO.canon(sets_sorted(kinds[n], a)) == ZOO.canon(want[n]), 'each property alone', (n, a))


class Node(properties.HasProperties):
    _REGISTRY = dict()
    value = properties.Integer('value', required=False)
    nxt = properties.Instance('next', properties.HasProperties, required=False)
    kids = properties.List('kids', properties.Instance('kid', properties.HasProperties), required=False)
    table = properties.Dictionary('table', value_prop=properties.Instance('v', properties.HasProperties), required=False)
    either = properties.Union('either', [properties.Integer('i'), properties.Instance('v', properties.HasProperties)], required=False)
    bag = properties.Set('bag', properties.Instance('v', properties.HasProperties), required=False)
    old = properties.Renamed('value')

    @properties.Integer('twice')
    def twice(self):
        return None if self.value is None else 2 * self.value

    @properties.List('all kids', properties.Instance('kid', properties.HasProperties))
    def family(self):
        return list(self.kids or [])


LOOP = 'the structure contains itself'


def model(n, classes, dynamic, path):
    if any(n is p for p in path):
        return LOOP
    path = path + (n,)
    b, out = n._backend, {}

    def put(k, v):
        if isinstance(v, str) and v == LOOP:
            return False
        if v is not None:
            out[k] = v
        return True

    def many(vs):
        vs = [model(v, classes, dynamic, path) for v in vs]
        return LOOP if any(isinstance(v, str) for v in vs) else vs
    ok = put('value', b.get('value'))
    if b.get('nxt') is not None:
        ok = ok and put('nxt', model(b['nxt'], classes, dynamic, path))
    if b.get('kids') is not None:
        ok = ok and put('kids', many(b['kids']))
    if b.get('bag') is not None:
        ok = ok and put('bag', many(b['bag']))
    if b.get('table') is not None:
        vs = many(list(b['table'].values()))
        ok = ok and put('table', vs if isinstance(vs, str) else dict(zip(b['table'], vs)))
    if b.get('either') is not None:
        e = b['either']
        ok = ok and put('either', e if isinstance(e, int) else model(e, classes, dynamic, path))
    if dynamic:
        ok = ok and put('twice', None if b.get('value') is None else 2 * b['value'])
        ok = ok and put('family', many(b.get('kids') or []))
    if not ok:
        return LOOP
    if classes:
        out['__class__'] = 'Node'
    return out


def drop(j, name):
    if isinstance(j, dict):
        return {k: drop(v, name) for k, v in j.items() if k != name}
    if isinstance(j, list):
        return [drop(v, name) for v in j]
    return j


@bounded('C11', SER, trials=900)
def graphs_of_instances():
    """Random graphs, also with cycles, with all combinations of the keywords, twice in a row."""
    import warnings
    r = rng()
    ns = [Node() for _ in range(4)]
    loops = r.random() < 0.4

    def other(i):
        return ns[r.randrange(0 if loops else i + 1, 4)]
    for i, n in enumerate(ns):
        if r.random() < 0.7:
            n.value = r.randint(0, 9)
        if not loops and i == 3:
            break
        if r.random() < 0.4:
            n.nxt = other(i)
        if r.random() < 0.3:
            n.kids = [other(i) for _ in range(r.randint(0, 2))]
        if r.random() < 0.3:
            n.table = {k: other(i) for k in r.sample(['a', 'b'], r.randint(0, 2))}
        if r.random() < 0.3:
            n.either = r.choice([7, other(i)])
        if r.random() < 0.15:
            n.bag = {other(i)}
    for _ in range(3):
        x = r.choice(ns)
        classes, dynamic = r.random() < 0.5, r.random() < 0.4
        want = model(x, classes, dynamic, ())
        note('graph', (repr(want), classes, dynamic))
        backends = [dict(n._backend) for n in ns]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = x.serialize(include_class=classes, save_dynamic=dynamic)
            check(want != LOOP, 'a self-reference raises')
            got = drop(got, 'old')
            check(got == want, 'the stored values, in full', (got, want))
            if want:
                check(list(got) != [] and ('__class__' in got) == classes, 'named exactly when asked for')
        except properties.SelfReferenceError:
            check(want == LOOP, 'only a self-reference raises', want)
        check(all(dict(n._backend) == b for n, b in zip(ns, backends)), 'the instances are not modified')


class Custom(properties.HasProperties):
    _REGISTRY = dict()
    calls = []


@bounded('C11', SER, trials=300)
def custom_serializers():
    """Serializers of either signature, on properties alone and inside containers, Unions and instances."""
    r = rng()
    calls = []
    two = r.random() < 0.5

    def one(v):
        calls.append((v, None))
        return ('S', v) if v is not None else None

    def full(v, **kwargs):
        calls.append((v, kwargs))
        return ('S', v) if v is not None else None
    ser = full if two else one
    elem = properties.Integer('e', required=False, serializer=ser)
    where = r.choice(['alone', 'list', 'tuple', 'dictionary', 'union', 'set', 'nested'])
    Inner = type(str('Inner'), (properties.HasProperties,), {'_REGISTRY': dict(), 'e': elem})
    p, v, want, parts = {
        'alone': lambda: (elem, 5, ('S', 5), [5]),
        'list': lambda: (properties.List('l', elem), [1, 2, 2], [('S', 1), ('S', 2), ('S', 2)], [1, 2, 2]),
        'tuple': lambda: (properties.Tuple('t', elem), (3, 4), [('S', 3), ('S', 4)], [3, 4]),
        'dictionary': lambda: (properties.Dictionary('d', value_prop=elem), {'a': 1}, {'a': ('S', 1)}, [1]),
        'union': lambda: (properties.Union('u', [properties.String('s'), elem]), 6, ('S', 6), [6]),
        'set': lambda: (properties.Set('s', elem), {8}, [('S', 8)], [8]),
        'nested': lambda: (properties.Instance('i', Inner), Inner(e=9), {'e': ('S', 9)}, [9]),
    }[where]()
    cls = type(str('Outer'), (properties.HasProperties,), {'_REGISTRY': dict(), 'p': p})
    x = cls(p=v)
    kw = {'include_class': False}
    if r.random() < 0.5:
        kw['verbose'] = r.choice([True, 'very', None])
    if r.random() < 0.3:
        kw['save_dynamic'] = True
    note('where', (where, two, sorted(kw)))
    del calls[:]
    got = x.serialize(**kw)
    check(got == {'p': want}, 'the result of the serializer', got)
    kwargs = dict({'save_dynamic': False}, **kw)
    check(calls == [(v, kwargs if two else None) for v in parts], 'called once per value with all keywords', calls)
