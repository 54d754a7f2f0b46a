"""C13: serialize/deserialize round trip and copy preserve values."""
import json
import properties
import six
from properties import undefined
from contracts.stubs import *    # noqa
from contracts import zoo as ZOO
from pyvc.api import *           # noqa

TRIP = ['properties.base.base:HasProperties.serialize', 'properties.base.base:HasProperties.deserialize',
        'properties.utils:filter_props']
COPY = ['properties.base.base:copy']
SEQ = ['properties.base.containers:Tuple.serialize', 'properties.base.containers:Tuple.deserialize']
DICT = ['properties.base.containers:Dictionary.serialize', 'properties.base.containers:Dictionary.deserialize']
NAMES = ['x', 'y', 'z']


@contract('C13', ['properties.basic:Boolean.from_json', 'properties.basic:Integer.from_json', 'properties.basic:GettableProperty.serialize',
                  'properties.basic:GettableProperty.deserialize'], trials=600)
def simple_values():
    """Booleans, integers and text, all of them."""
    kind = choose('kind', ['boolean', 'integer', 'string', 'choice', 'none'])
    if kind == 'boolean':
        p, v = properties.Boolean('doc'), any_bool('value')
    elif kind == 'integer':
        p, v = properties.Integer('doc'), any_int('value')
    elif kind == 'string':
        p, v = properties.String('doc'), any_str('value')
    elif kind == 'choice':
        p, v = properties.StringChoice('doc', ['one', 'two']), choose('value', ['one', 'two'])
    else:
        p, v = choose('prop', [properties.Boolean('doc'), properties.Integer('doc'), properties.Float('doc'),
                               properties.String('doc'), properties.List('doc'), properties.Dictionary('doc')]), None
    j = p.serialize(v)
    got = p.deserialize(j)
    check(type(got) is type(v), 'the type is preserved')
    check(same(got, v), 'and the value')
    if kind != 'none':
        check(same(p.from_json(p.to_json(v)), v), 'also by the static methods')
        check(same(p.validate(None, got), v), 'and it is valid')


@contract('C13', ['properties.basic:Float.to_json', 'properties.basic:Float.from_json'], trials=1500)
def floats():
    """Every float, including infinities and nan."""
    p = properties.Float('doc')
    v = any_float('value')
    j = p.serialize(v)
    got = p.deserialize(j)
    check(type(got) is float, 'a float')
    check(p.equal(got, v), 'equal to the value')
    check(p.equal(p.from_json(p.to_json(v)), v), 'also by the static methods')
    check(isinstance(j, str) == (v != v or v in (float('inf'), float('-inf'))), 'only inf and nan are written as text')


@contract('C13', ['properties.basic:Complex.to_json', 'properties.basic:Complex.from_json', 'properties.basic:Complex.equal'], trials=600)
def complex_numbers():
    """Every complex number, including infinities and nan."""
    p = properties.Complex('doc')
    v = complex(any_float('real'), any_float('imaginary'))
    j = p.serialize(v)
    check(isinstance(j, str), 'written as text')
    got = p.deserialize(j)
    check(type(got) is complex, 'a complex number')
    check(p.equal(got, v) and p.equal(v, got), 'equal to the value')
    check(p.equal(p.from_json(p.to_json(v)), v), 'also by the static methods')


class Elem(AbsProp):
    """Any serializer and any deserializer."""

    def serialize(self, value, **kwargs):
        return uf_value('serialized', self, value)

    def deserialize(self, value, **kwargs):
        return uf_value('loaded', self, value)


def elem(name):
    return abstract(Elem, 'prop', (name,), prop_fields)


@contract('C13', SEQ, trials=500, slow=True)
def sequences():
    """Tuple and List of any length: every element makes its own round trip, in order."""
    cls = choose('kind', [properties.Tuple, properties.List])
    p = cls('doc', properties.Property('e'), required=False)
    e = elem('element')
    p._prop = e
    v = mkseq('value', lambda i: uf_value('item', i))
    want = []
    for x in v:
        want.append(uf_value('loaded', e, uf_value('serialized', e, x)))
    held = tuple(v) if cls is properties.Tuple else v
    before = snapshot(v)
    got = p.deserialize(p.serialize(held))
    check(type(got) is type(held) and got is not v, 'a new container of the same class')
    check(same_seq(got, want), 'every element, in order')
    check(same_seq(v, before), 'the value is not modified')


class KeyElem(Elem):
    def serialize(self, value, **kwargs):
        return value

    def deserialize(self, value, **kwargs):
        return value


@contract('C13', DICT, trials=500, slow=True)
def dictionaries():
    """Dictionary of any size."""
    p = properties.Dictionary('doc', required=False)
    p._key_prop = abstract(KeyElem, 'key', (), lambda: prop_fields('key'))
    e = elem('value')
    p._value_prop = e
    v = mkdict('value', lambda k: uf_value('item', k), NAMES)
    j = p.serialize(v)
    got = p.deserialize(j)
    check(type(got) is dict and got is not v and got is not j, 'a new dictionary')
    k = any_name('key', NAMES)
    check((k in got) == (k in v), 'the same keys')
    if k in v:
        check(same(got[k], uf_value('loaded', e, uf_value('serialized', e, v[k]))), 'every value')
        check(same(v[k], uf_value('item', k)), 'the dictionary is not modified')


KW = [None]


class ByContract(type(properties.HasProperties)):
    """Construction by contract: the keywords are assigned."""

    def __call__(cls, **kwargs):
        KW[0] = kwargs
        return new_instance(cls, _backend={})


class Constructed(six.with_metaclass(ByContract, properties.HasProperties)):
    _REGISTRY = dict()


class TripProp(Elem):
    def get_property(self):
        scope = self

        def fset(self, value):
            KW[0][scope.name] = value

        def fget(self):
            return self._backend.get(scope.name, None)
        return property(fget=fget, fset=fset)


def trip_prop(key):
    return abstract(TripProp, 'prop', (key,), prop_fields)


@contract('C13', TRIP, trials=500, slow=True)
def instances():
    """Any class, any instance: every stored value makes its own round trip."""
    props = mkdict('props', trip_prop, NAMES)
    assume('__class__' not in props)
    cls = abs_class(Constructed, props)
    stored = {k: uf_value('stored', k) for k in props if uf_bool('has', k)}
    x = new_instance(cls, _backend=stored)
    KW[0] = {}
    j = x.serialize(include_class=False)
    y = cls.deserialize(j)
    check(y is not x and type(y) is cls, 'another instance of the class')
    check(x._backend is stored, 'the instance is not modified')
    k = any_name('key', NAMES)
    if k in props and uf_bool('has', k):
        s = uf_value('serialized', props[k], stored[k])
        check(s is None or same(KW[0].get(k, undefined), uf_value('loaded', props[k], s)), 'every stored value')
        check(s is not None or k not in KW[0], 'unless it is serialized as None')
    else:
        check(k not in KW[0], 'and nothing else')


class Copied(properties.HasProperties):
    """serialize and deserialize by contract."""

    _REGISTRY = dict()

    def serialize(self, include_class='absent', save_dynamic='absent', **kwargs):
        log('serialize', self, include_class, kwargs.get('trusted', 'absent'), kwargs.get('extra', 'absent'), len(kwargs))
        if uf_rare('serialize raises', self):
            raise uf_exc('serialize error', self)
        return uf_value('serialized', self)

    @classmethod
    def deserialize(cls, value, trusted='absent', strict='absent', assert_valid='absent', **kwargs):
        log('deserialize', cls, value, trusted, kwargs.get('include_class', 'absent'), kwargs.get('extra', 'absent'), len(kwargs))
        if uf_rare('deserialize raises', value):
            raise uf_exc('deserialize error', value)
        return uf_value('copy', value)


class MoreCopied(Copied):
    pass


@contract('C13', COPY, trials=600)
def copying():
    """copy is deserialize after serialize, of the value's own class, with the keywords."""
    cls = choose('class', [Copied, MoreCopied])
    x = new_instance(cls)
    kw = {}
    if any_bool('include_class given'):
        kw['include_class'] = any_bool('include_class')
    if any_bool('trusted given'):
        kw['trusted'] = any_bool('trusted')
    if any_bool('extra'):
        kw['extra'] = uf_value('extra', 0)
    with_class, trusted, n = kw.get('include_class', True), kw.get('trusted', True), 2 if 'extra' in kw else 1
    s = uf_value('serialized', x)
    first = ('serialize', x, with_class, trusted, kw.get('extra', 'absent'), n)
    second = ('deserialize', cls, s, trusted, with_class, kw.get('extra', 'absent'), n)
    clear_trace()
    failed, got = None, None
    try:
        got = properties.copy(x, **kw)
    except BaseException as e:
        failed = e
    if uf_rare('serialize raises', x):
        check(failed is not None and failed is uf_exc('serialize error', x) and same_seq(trace(), [first]), 'errors of serialize are raised')
        return
    check(same_seq(trace(), [first, second]), 'one serialization, and one deserialization of it by the class, with the keywords')
    if uf_rare('deserialize raises', s):
        check(failed is not None and failed is uf_exc('deserialize error', s), 'errors of deserialize are raised')
    else:
        check(failed is None and same(got, uf_value('copy', s)), 'its result')


@contract('C13', COPY, trials=200)
def only_instances():
    """Anything else cannot be copied."""
    v = any_value('value')
    assume(not isinstance(v, properties.HasProperties))
    try:
        properties.copy(v)
    except ValueError:
        return
    fail('rejected with ValueError')


@contract('C13', ['properties.base.containers:Tuple.from_json', 'properties.base.containers:List.from_json'], trials=300)
def static_from_json():
    """from_json of Lists and Tuples: the elements of any sequence, in order, in a new container; the input is not modified."""
    a = mkseq('a', lambda i: uf_value('a', i))
    before = snapshot(a)
    cls, kind = choose('property', [(properties.List, list), (properties.Tuple, tuple)])
    got = cls.from_json(a) if any_bool('of the class') else cls('doc', properties.Property('p')).from_json(a, trusted=True)
    check(type(got) is kind and got is not a and same_seq(got, before), 'a new container with the same elements')
    check(same_seq(a, before), 'the input is not modified')


@contract('C13', ['properties.base.containers:Set.from_json'], trials=300, bound='at most three elements (of any kind)')
def static_set_from_json():
    """from_json of Sets: the set of the elements."""
    x, y, z = any_str('x'), any_str('y'), any_str('z')
    l = [x, y, z][:choose('length', [0, 1, 2, 3])]
    got = properties.Set.from_json(l)
    check(type(got) is set and len(got) <= len(l), 'a set')
    check(all(v in got for v in l), 'with every element')
    v = any_str('any')
    check((v in got) == any(v == w for w in l), 'and no other')


# ---------------------------------------------------------------- bounded
def show(x):
    """What the instance holds, by type and value."""
    if isinstance(x, properties.HasProperties):
        return type(x).__name__, sorted((k, show(v)) for k, v in x._backend.items() if v is not None and v is not undefined)
    if isinstance(x, dict):
        return 'dict', sorted(((repr(k), show(v)) for k, v in x.items()), key=repr)
    if isinstance(x, (set, frozenset)):
        return 'set', sorted((show(v) for v in x), key=repr)
    if isinstance(x, (list, tuple)):
        return 'list' if isinstance(x, list) else 'tuple', [show(v) for v in x]
    if hasattr(x, 'tolist'):
        return type(x).__name__, str(x.dtype), repr(x.tolist())
    return type(x).__name__, repr(x)


@bounded('C13', TRIP + COPY + SEQ + DICT, trials=1500)
def random_instances():
    """Random classes with every kind of property and random valid values."""
    r = rng()
    ZOO.REG.clear()
    cls, kinds = ZOO.random_class(r, 2, 5)
    x = ZOO.make_instance(r, cls, kinds, r.choice([0.5, 1.0]))
    note('instance', show(x))
    before = show(x)
    mutables = []
    ZOO.mutables(x, mutables, {})
    ids = [(id(m), show(m)) for m in mutables]
    how = r.choice(['deserialize', 'json', 'copy', 'copy twice', 'base'])
    if how == 'copy':
        y = properties.copy(x)
    elif how == 'copy twice':
        y = properties.copy(properties.copy(x))
    else:
        j = x.serialize()
        check(not ZOO.shared(x, j), 'the serialized form shares nothing mutable with the instance')
        if how == 'json':
            j = json.loads(json.dumps(j))
        saved = repr(j)
        y = cls.deserialize(j, trusted=True)
        check(repr(j) == saved, 'deserialize does not modify its input')
        check(not ZOO.shared(y, j), 'and the instance shares nothing with it')
    check(type(y) is cls and y is not x, 'another instance of the same class')
    check(properties.equal(x, y) and properties.equal(y, x), 'that is equal', (show(x), show(y)))
    check(show(x) == show(y), 'has the same values of the same types', (show(x), show(y)))
    check(not ZOO.shared(x, y), 'and shares no mutable value')
    check(show(x) == before, 'the instance is not modified')
    again = []
    ZOO.mutables(x, again, {})
    check([id(m) for m in again] == [i for i, _ in ids], 'and holds the same objects')
    for n, k in kinds.items():
        v = x._backend.get(n, None)
        if v is None or v is undefined:
            check(y._backend.get(n, None) in (None, undefined), 'nothing is added')
            continue
        p = cls._props[n]
        w = p.deserialize(p.serialize(v), trusted=True)
        check(p.equal(v, w) and p.equal(w, v), 'every property makes its own round trip', (n, show(v), show(w)))
        if k.tag not in CONTAINERS and not k.tag.startswith(('array', 'vector')):
            w = p.from_json(p.to_json(v))
            check(p.equal(v, p.validate(None, w)), 'also by its static methods', (n, show(v), show(w)))
    if kinds:
        n = r.choice(sorted(kinds))
        setattr(y, n, kinds[n].gen(r))
        check(show(x) == before, 'changing the copy does not change the instance')


CONTAINERS = ('dictionary', 'list', 'tuple', 'set', 'union', 'instance')


class Leaf(properties.HasProperties):
    _REGISTRY = dict()
    n = properties.Float('n', required=False)
    tags = properties.List('tags', properties.String('t'), required=False)


class Fork(Leaf):
    left = properties.Instance('left', Leaf, required=False)
    right = properties.Union('right', [Leaf, properties.Integer('i')], required=False)
    kids = properties.List('kids', properties.Instance('kid', Leaf), required=False, observe_mutations=True)
    index = properties.Dictionary('index', key_prop=properties.String('k'), value_prop=properties.Instance('v', Leaf), required=False)
    fixed = properties.Uuid('fixed')
    made = properties.Float('made', serializer=lambda v: None if v is None else {'wrapped': str(v)}, deserializer=lambda j: float(j['wrapped']), required=False)
    log_ = properties.Float('default', default=2.5)
    gone = properties.List('default', default=lambda: [1, 2], required=False)
    old = properties.Renamed('n', warn=False)

    @properties.Integer('dynamic')
    def dyn(self):
        return len(self.kids or [])


def tree(r, depth):
    cls = r.choice([Leaf, Fork]) if depth > 0 else Leaf
    x = cls()
    if r.random() < 0.6:
        x.n = r.choice(ZOO.FLOATS)
    if r.random() < 0.5:
        x.tags = r.choice([[], ['a'], ['a', 'b']])
    if cls is Fork:
        if r.random() < 0.6:
            x.left = tree(r, depth - 1)
        if r.random() < 0.6:
            x.right = r.choice([tree(r, depth - 1), 7])
        if r.random() < 0.6:
            x.kids = [tree(r, depth - 1) for _ in range(r.randint(0, 2))]
        if r.random() < 0.6:
            x.index = {k: tree(r, depth - 1) for k in r.sample(['a', 'b', '__class__x'], r.randint(0, 2))}
        if r.random() < 0.5:
            x.made = r.choice(ZOO.FLOATS)
        if r.random() < 0.3:
            x.log_ = 7
        if r.random() < 0.3:
            x.gone = r.choice([[], ['z']])
    return x


def json_like(r, depth=3):
    """Data that JSON carries."""
    if depth and r.random() < 0.4:
        return [json_like(r, depth - 1) for _ in range(r.randint(0, 3))]
    if depth and r.random() < 0.5:
        return {r.choice('abcd') + str(i): json_like(r, depth - 1) for i in range(r.randint(0, 3))}
    return r.choice([1, 0, -2.5, 'text', '', True, None])


def as_it_is(v, **kw):
    return v


class Loose(properties.HasProperties):
    """Instances of built-in classes; their JSON form is what they are."""

    _REGISTRY = dict()
    rows = properties.Instance('a list', list, deserializer=as_it_is, required=False)
    table = properties.Instance('a dictionary', dict, deserializer=as_it_is, required=False)
    either = properties.Union('one of them', [properties.Instance('list', list, deserializer=as_it_is),
                                              properties.Instance('dictionary', dict, deserializer=as_it_is)], required=False)
    many = properties.List('lists', properties.Instance('list', list, deserializer=as_it_is), required=False)


@bounded('C13', TRIP + COPY + ['properties.base.instance:Instance.to_json'], trials=300)
def plain_instances():
    """Instances of list and dict without a serializer: the round trip is an equal copy, all the way down."""
    r = rng()
    rows, table = [json_like(r) for _ in range(r.randint(0, 3))], {c: json_like(r) for c in r.sample('xyz', r.randint(0, 3))}
    x = Loose(rows=rows, table=table, either=r.choice([rows, table]), many=[rows, [rows]])
    before = show(x)
    note('instance', before)
    y = properties.copy(x)
    check(type(y) is Loose and show(y) == before, 'the same values of the same types', (before, show(y)))
    check(properties.equal(x, y), 'that are equal')
    check(not ZOO.shared(x, y), 'and no mutable value shared')
    j = x.serialize()
    check(not ZOO.shared(x, j), 'nor by the serialized form')
    if y.rows:
        y.rows.append(5)
        y.rows[0] = 'changed'
    y.table['new'] = 1
    check(show(x) == before, 'changing the copy does not change the instance')


@bounded('C13', TRIP + COPY, trials=1500)
def trees():
    """Nested instances of a base class and its subclass, registered serializers, defaults, dynamic and renamed properties."""
    r = rng()
    x = tree(r, 3)
    before = show(x)
    note('instance', before)
    how = r.choice(['deserialize', 'json', 'copy', 'from base', 'dynamic'])
    if how == 'copy':
        y = properties.copy(x)
    elif how == 'json':
        y = type(x).deserialize(json.loads(json.dumps(x.serialize())), trusted=True)
    elif how == 'from base':
        y = Leaf.deserialize(x.serialize(), trusted=True)
    elif how == 'dynamic':
        y = type(x).deserialize(x.serialize(save_dynamic=True), trusted=True)
    else:
        y = type(x).deserialize(x.serialize(), trusted=True)
    check(type(y) is type(x) and y is not x, 'another instance of the same class')
    check(show(y) == show(x), 'with the same values', (show(x), show(y)))
    check(properties.equal(x, y) and properties.equal(y, x), 'that is equal')
    check(not ZOO.shared(x, y), 'and shares no mutable value')
    check(show(x) == before, 'the instance is not modified')
    if isinstance(y, Fork):
        if y.kids is not None:
            y.kids.append(Leaf(n=1))
            check(len(y.kids) == len(x.kids) + 1, 'a copied observable list is observed')
        check(show(x) == before, 'changing the copy does not change the instance')
