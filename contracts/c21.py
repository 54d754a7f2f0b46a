"""C21: singletons: one instance per name per registry, also through deserialize."""
import json
import properties
import properties.extras
from properties import undefined
from properties.extras import Singleton
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from pyvc.api import *           # noqa

CALL = ['properties.extras.singleton:SingletonMetaclass.__call__', 'properties.extras.singleton:Singleton.__init__']
SER = ['properties.extras.singleton:Singleton.serialize']
DES = ['properties.extras.singleton:Singleton.deserialize']


class Shade(Singleton):
    """With a name property."""

    _REGISTRY = dict()
    _SINGLETONS = dict()
    name = properties.String('name', required=False)
    level = properties.Integer('level', required=False)


class Tint(Shade):
    """In the same registry."""


class Apart(Shade):
    """In a registry of its own."""

    _SINGLETONS = dict()


class Mark(Singleton):
    """Without a name property."""

    _REGISTRY = Shade._REGISTRY
    _SINGLETONS = dict()
    level = properties.Integer('level', required=False)


class Loud(Singleton):
    """With a name property that changes the name it is given."""

    _REGISTRY = Shade._REGISTRY
    _SINGLETONS = dict()
    name = properties.String('name', change_case='upper')


class Quiet(Loud):
    """With choices that have aliases."""

    _SINGLETONS = dict()
    name = properties.StringChoice('name', {'one': ['1', 'ONE'], 'two': ['2']}, case_sensitive=True)


def fresh():
    Loud._SINGLETONS.clear()
    Quiet._SINGLETONS.clear()
    Shade._SINGLETONS.clear()
    Apart._SINGLETONS.clear()
    Mark._SINGLETONS.clear()


@contract('C21', CALL, trials=1200)
def calls():
    """Two calls with any names, of classes of the same or of different registries."""
    fresh()
    one, two = any_str('one'), any_str('two')
    c1, c2 = choose('first class', [Shade, Tint, Apart, Mark]), choose('second class', [Shade, Tint, Apart, Mark])
    bad = any_bool('bad value')
    a = c1(one, level=1)
    check(type(a) is c1 and a.level == 1 and a.name == one and c1._SINGLETONS[one] is a, 'a new instance is registered under its name')
    check(len(c1._SINGLETONS) == 1, 'once')
    together = c1._SINGLETONS is c2._SINGLETONS
    try:
        b = c2(two, level='x' if bad else 2)
    except ValueError:
        check(bad and not (together and one == two), 'only a construction that fails raises')
        check(len(c2._SINGLETONS) == (1 if together else 0), 'and registers nothing')
        check(a.level == 1, 'and changes nothing')
        cover('failed')
        return
    if together and one == two:
        check(b is a, 'a name in the registry gives that very instance')
        check(len(c2._SINGLETONS) == 1, 'nothing new is registered')
        cover('the same')
    else:
        check(not bad, 'errors of the construction are raised')
        check(type(b) is c2 and b is not a and b.level == 2 and b.name == two, 'a new name gives a new instance')
        check(c2._SINGLETONS[two] is b, 'registered under its name')
        check(len(c2._SINGLETONS) == (2 if together else 1), 'once')
        cover('another')
    check(a.level == 1 and a.name == one and c1._SINGLETONS[one] is a, 'the first is not changed')


@contract('C21', CALL, trials=600)
def renamed():
    """The identity does not change with the name."""
    fresh()
    cls = choose('class', [Shade, Mark])
    one, new = any_str('one'), any_str('new name')
    a = cls(one)
    how = choose('how', ['set', 'set', 'delete'])
    if how == 'set':
        a.name = new
    elif cls is Shade:
        del a.name
    check(cls(one) is a, 'it is found by its identifying name')
    check(len(cls._SINGLETONS) == 1, 'it is registered once')
    if new != one:
        b = cls(new)
        check(b is not a and cls(new) is b, 'and not by its new name')
    j = a.serialize()
    check(j['_singleton_id'] == one, 'its identity is serialized')
    check(cls.deserialize(j) is a, 'and read back to itself')


@contract('C21', CALL + SER + DES, trials=200)
def coerced_names():
    """The identity is the name given, whatever the name property makes of it."""
    fresh()
    cls = choose('class', [Loud, Quiet])
    one = choose('name', ['one', 'ONE', '1', 'two', '2'])
    a = cls(one)
    check(a.name == (one.upper() if cls is Loud else {'1': 'one', 'ONE': 'one', '2': 'two'}.get(one, one)), 'the name is validated')
    check(cls(one) is a and cls._SINGLETONS[one] is a and len(cls._SINGLETONS) == 1, 'it is found by the name given')
    j = a.serialize()
    check(j['_singleton_id'] == one, 'its identity is serialized')
    check(cls.deserialize(j) is a, 'and read back to itself')
    if any_bool('elsewhere'):
        fresh()
        b = cls.deserialize(j)
        check(b is not a and b.name == a.name, 'or to a new one, with the same name')
        check(cls(one) is b and len(cls._SINGLETONS) == 1, 'and the same identity')


class SavedProp(AbsProp):
    """serialize by contract."""

    def serialize(self, value, **kwargs):
        log('serialize', self.name, value, kwargs.get('include_class', 'absent'), kwargs.get('save_dynamic', 'absent'),
            kwargs.get('extra', 'absent'), len(kwargs))
        return uf_value('serialized', self, value)


def saved_prop(key):
    return abstract(SavedProp, 'prop', (key,), prop_fields)


@contract('C21', SER, trials=500)
def serialize_keywords():
    """serialize is that of HasProperties, with every keyword, plus the identity."""
    props = mkdict('props', saved_prop, ['x', 'y', 'z'])
    assume('__class__' not in props)
    assume('_singleton_id' not in props)
    cls = abs_class(Mark, props)
    stored = {k: uf_value('stored', k) for k in props if uf_bool('has', k)}
    ident = any_str('identity')
    inst = new_instance(cls, _backend=stored, _singleton_id=ident)
    dynamic, with_class, extra = any_bool('save dynamic'), any_bool('with class'), uf_value('extra', 0)
    source = props if dynamic else stored
    want = [('serialize', k, stored.get(k, None), with_class, dynamic, extra, 3) for k in source]
    clear_trace()
    got = inst.serialize(include_class=with_class, save_dynamic=dynamic, extra=extra)
    check(same_seq(trace(), want), 'every stored property is serialized, once, with the keywords')
    check(got['_singleton_id'] == ident, 'the identity is saved')
    check(('__class__' in got) == with_class, 'the class exactly when asked for')
    check(inst._backend is stored and inst._singleton_id == ident, 'the instance is not modified')


@contract('C21', DES + SER, trials=1200, slow=True)
def loads():
    """deserialize of any dictionary, with any identity in the registry."""
    fresh()
    cls = choose('class', [Shade, Mark])
    there, ident, name = any_str('registered'), any_str('identity'), any_str('name')
    old = cls(there, level=5)
    value = {'__class__': cls.__name__}
    has_id, has_name = any_bool('has identity'), any_bool('has name')
    if has_id:
        value['_singleton_id'] = ident
    if has_name:
        value['name'] = name
    level = choose('level', ['absent', 7, 'x'])
    if level != 'absent':
        value['level'] = level
    size = len(value)
    want = ident if has_id else name if has_name else None
    try:
        got = cls.deserialize(value)
    except ValueError:
        check(want is None or (want != there and level == 'x'), 'a dictionary that identifies a singleton is accepted')
        check(len(cls._SINGLETONS) == 1, 'a failed one registers nothing')
        cover('rejected')
        check(len(value) == size, 'the input is not modified')
        return
    check(want is not None, 'a dictionary without identity is rejected')
    check(len(value) == size and ('_singleton_id' in value) == has_id and ('name' in value) == has_name, 'the input is not modified')
    if has_name:
        check(value['name'] == name, 'nor its values')
    if want == there:
        check(got is old, 'the registered instance is returned')
        check(old.level == 5 and old.name == there, 'and not changed')
        check(len(cls._SINGLETONS) == 1, 'nothing is registered')
        cover('found')
    else:
        check(level != 'x', 'invalid values are rejected')
        check(type(got) is cls and got is not old, 'a new instance')
        check(cls._SINGLETONS[want] is got and len(cls._SINGLETONS) == 2, 'registered under its identity')
        check(got._singleton_id == want, 'which it keeps')
        check(got.level == (7 if level == 7 else None), 'with the values given')
        if has_name and cls is Shade:
            check(got.name == name, 'and the name given')
        cover('built')


@bounded('C21', CALL + SER + DES, trials=1200)
def histories():
    """Random histories of creations, renames, changes, failures and deserializations against a model."""
    r = rng()
    registry = dict()
    stores = [dict(), dict()]

    class Base(Singleton):
        """The base."""

        _REGISTRY = registry
        _SINGLETONS = stores[0]
        level = properties.Integer('level', required=False)
        must = properties.Boolean('must', required=True)

    class Named(Base):
        name = properties.String('name', required=False)
        kids = properties.List('kids', properties.Instance('k', Base), required=False)

    class Strict(Named):
        """Only some names."""

        name = properties.StringChoice('name', ['a', 'b', 'c', 'd'], required=False)

    class Own(Named):
        _SINGLETONS = stores[1]

        @properties.validator
        def refuse(self):
            if self.level == 9:
                raise ValueError('nine')
    classes = [Base, Named, Strict, Own]
    model = [dict(), dict()]        # identity -> [instance, class, level, name]
    saved = []
    story = []
    names = ['a', 'b', 'c', 'bad', '']

    def where(c):
        return 1 if issubclass(c, Own) else 0

    def agree():
        for store, m in zip(stores, model):
            check(set(store) == set(m), 'exactly the singletons made are registered', lambda: (story, sorted(store), sorted(m)))
            for ident, (inst, c, level, name) in m.items():
                check(store[ident] is inst and type(inst) is c, 'each under its identity', lambda: (story, ident))
                check(inst._singleton_id == ident, 'which never changes', lambda: (story, ident))
                check(inst.level == level and inst.name == name, 'with its own values', lambda: (story, ident, inst.level, level, inst.name, name))
    for _ in range(r.randint(1, 14)):
        op = r.choice(['call', 'call', 'call', 'fail', 'rename', 'change', 'save', 'load', 'load', 'unknown', 'elsewhere', 'nested'])
        c = r.choice(classes)
        m = model[where(c)]
        n = r.choice(names)
        story.append((op, c.__name__, n))
        note('input', story)
        if op in ('call', 'fail'):
            level = 'x' if op == 'fail' else r.choice([None, 1, 2, 9])
            kw = {} if level is None else {'level': level}
            invalid = op == 'fail' or (c is Strict and n in ('bad', ''))
            try:
                got = c(n, must=True, **kw)
                if n in m:
                    check(got is m[n][0], 'a known name gives that very instance', lambda: story)
                else:
                    check(not invalid, 'invalid values are rejected', lambda: story)
                    check(type(got) is c, 'a new instance of the class called', lambda: story)
                    m[n] = [got, c, level, n]
            except ValueError:
                check(invalid and n not in m, 'a valid construction succeeds', lambda: story)
        elif op == 'unknown':
            for j in ({}, {'level': 1}, {'__class__': c.__name__, 'must': True}, 'text', None, [1]):
                try:
                    c.deserialize(j)
                    fail('what identifies no singleton is rejected', lambda: (story, j))
                except ValueError:
                    pass
        elif op == 'load' and saved:
            j = json.loads(json.dumps(r.choice(saved)))
            mode = r.choice(['same', 'same', 'other', 'named', 'broken', 'invalid'])
            if mode == 'other':
                j['_singleton_id'] = n
            elif mode == 'named':
                j.pop('_singleton_id')
                j['name'] = n
            elif mode == 'broken':
                j['level'] = 'x'
            elif mode == 'invalid':
                j.pop('must', None)
            trusted, strict, valid = r.random() < 0.5, r.random() < 0.3, r.random() < 0.4
            story.append((j, trusted, strict, valid))
            before = json.loads(json.dumps(j))
            ident = j.get('_singleton_id', j.get('name'))
            target = c
            bad = False
            if j['__class__'] != c.__name__:
                if trusted:
                    target = registry[j['__class__']]
                elif strict:
                    bad = True
            mt = model[where(target)]
            if ident in m:
                expect = m[ident][0]
            elif not bad and ident in mt:
                expect = mt[ident][0]
            else:
                expect = None
                bad = bad or 'x' == j.get('level') or \
                    (strict and (('name' in j and 'name' not in target._props) or ('kids' in j and 'kids' not in target._props)))
                bad = bad or (target is Strict and (ident not in names[:3] + ['d'] or j.get('name', 'a') not in names[:3] + ['d']))
                bad = bad or (valid and ('must' not in j or (target is Own and j.get('level') == 9)))
            try:
                got = c.deserialize(j, trusted=trusted, strict=strict, assert_valid=valid)
                if expect is not None:
                    check(got is expect, 'the registered instance is returned', lambda: story)
                else:
                    check(not bad, 'invalid dictionaries are rejected', lambda: story)
                    check(type(got) is target and got._singleton_id == ident, 'a new instance with that identity', lambda: story)
                    name = ident if j.get('name') is None else j['name']
                    mt[ident] = [got, target, j.get('level'), name]
            except ValueError:
                check(bad and expect is None, 'valid dictionaries are accepted', lambda: story)
            check(j == before, 'the dictionary is not modified', lambda: story)
        elif m:
            ident = r.choice(sorted(m))
            inst, ic, level, name = m[ident]
            if op == 'rename':
                if ic is Strict and n in ('bad', ''):
                    try:
                        inst.name = n
                        fail('names are validated', lambda: story)
                    except ValueError:
                        pass
                else:
                    inst.name = n
                    m[ident][3] = n
            elif op == 'change':
                inst.level = m[ident][2] = r.choice([3, 4, 9])
            elif op == 'save':
                j = inst.serialize()
                check(j['_singleton_id'] == ident and j['__class__'] == ic.__name__, 'the identity and the class are serialized', lambda: story)
                check(j.get('level') == level and ('name' in j) == ('name' in ic._props), 'with the values', lambda: story)
                check('_singleton_id' in inst.serialize(include_class=False) and '__class__' not in inst.serialize(include_class=False),
                      'the identity is always there', lambda: story)
                saved.append(j)
                check(properties.copy(inst) is inst, 'a copy of a singleton is itself', lambda: story)
            elif op == 'elsewhere':
                check((ident in model[1 - where(ic)]) == (ident in stores[1 - where(ic)]), 'registries are independent', lambda: story)
        agree()
