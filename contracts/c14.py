"""C14: equality of instances and of containers."""
import numpy as np
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

EQ = ['properties.base.base:equal']
NAMES = ['x', 'y', 'z']


class EqProp(AbsProp):
    """equal by contract: it may raise."""

    def equal(self, value_a, value_b):
        if uf_rare('equal raises', self, value_a, value_b):
            raise uf_exc('equal error', self, value_a, value_b)
        return uf_bool('equal', self, value_a, value_b)


def eq_prop(key):
    return abstract(EqProp, 'prop', (key,), prop_fields)


class PlainEqProp(AbsProp):
    def equal(self, value_a, value_b):
        return uf_bool('equal', self, value_a, value_b)


def plain_eq_prop(key):
    return abstract(PlainEqProp, 'prop', (key,), prop_fields)


class MaybeRenamed(PlainEqProp):
    """Possibly a Renamed one, which stands for another property."""

    @property
    def __class__(self):
        return properties.Renamed if uf_bool('renamed', self._name) else PlainEqProp

    @property
    def new_name(self):
        return self._name


def maybe_renamed_prop(key):
    return abstract(MaybeRenamed, 'prop', (key,), prop_fields)


@contract('C14', EQ + ['properties.base.base:HasProperties.equal'], trials=300)
def old_method():
    """The deprecated method equal gives what properties.equal gives."""
    cls = abs_class(Owner, mkdict('props', plain_eq_prop, NAMES))
    a = new_instance(cls, _backend=mkdict('a', lambda k: uf_value('stored in a', k), NAMES))
    other = choose('other', ['itself', 'another', 'anything'])
    if other == 'itself':
        v = a
    elif other == 'another':
        v = new_instance(cls, _backend=mkdict('b', lambda k: uf_value('stored in b', k), NAMES))
    else:
        v = any_value('other')
        assume(not isinstance(v, properties.HasProperties))
    check(a.equal(v) is properties.equal(a, v), 'the same answer')
    untouched(a)


def untouched(*insts):
    for i in insts:
        check(not getattr(i, '_testing_equality', False), 'no trace of the comparison is left')


@contract('C14', EQ, trials=900, slow=True)
def instances():
    """Two instances of one class with any properties and any values."""
    props = mkdict('props', maybe_renamed_prop, NAMES)
    cls = abs_class(Owner, props)
    va = mkdict('a', lambda k: uf_value('stored in a', k), NAMES)
    vb = mkdict('b', lambda k: uf_value('stored in b', k), NAMES)
    a, b = new_instance(cls, _backend=va), new_instance(cls, _backend=vb)
    want = True
    for k in props:
        x, y = va.get(k, None), vb.get(k, None)
        if uf_bool('renamed', k):
            pass
        elif x is None and y is None:
            pass
        elif x is None or y is None or not props[k].equal(x, y):
            want = False
            break
    result = properties.equal(a, b)
    check((result is True) == want, 'equal exactly when every property is unset in both or equal')
    check(result is True or result is False, 'the result is a boolean')
    untouched(a, b)
    check(a._backend is va and b._backend is vb, 'the values are not changed')


class Special(PlainEqProp):
    """A computed or an immutable property: it is compared like any other."""

    @property
    def __class__(self):
        return properties.basic.DynamicProperty if uf_bool('dynamic', self._name) else properties.GettableProperty


def special_prop(key):
    return abstract(Special, 'prop', (key,), prop_fields)


@contract('C14', EQ, trials=600, slow=True)
def computed_and_immutable():
    """Two instances of one class with any computed and immutable properties."""
    props = mkdict('props', special_prop, NAMES)
    cls = abs_class(Owner, props)
    va = mkdict('a', lambda k: uf_value('stored in a', k), NAMES)
    vb = mkdict('b', lambda k: uf_value('stored in b', k), NAMES)
    a, b = new_instance(cls, _backend=va), new_instance(cls, _backend=vb)
    want = True
    for k in props:
        x, y = va.get(k, None), vb.get(k, None)
        if x is None and y is None:
            pass
        elif x is None or y is None or not props[k].equal(x, y):
            want = False
            break
    check((properties.equal(a, b) is True) == want, 'equal exactly when every property is unset in both or equal')
    untouched(a, b)


class Computed(properties.HasProperties):
    """Its property is computed from what is not stored under its name."""

    _REGISTRY = dict()
    hidden = None

    @properties.Integer('computed')
    def shown(self):
        return self.hidden


@contract('C14', EQ, trials=200)
def computed_values():
    """Computed values are compared as they read."""
    x, y = choose('x', [None, 0, 1, 2]), choose('y', [None, 0, 1, 2])
    a, b = new_instance(Computed, hidden=x), new_instance(Computed, hidden=y)
    check(properties.equal(a, b) is (x == y), 'equal exactly if the computed values are')
    check(len(a._backend) == 0 and len(b._backend) == 0, 'which are not stored')


@contract('C14', EQ, trials=600, slow=True)
def symmetric():
    """equal(a, b) is equal(b, a), for properties whose equal is symmetric."""
    props = mkdict('props', abs_prop, NAMES)
    cls = abs_class(Owner, props)
    a = new_instance(cls, _backend=mkdict('a', lambda k: uf_value('stored in a', k), NAMES))
    b = new_instance(cls, _backend=mkdict('b', lambda k: uf_value('stored in b', k), NAMES))
    check(properties.equal(a, b) is properties.equal(b, a), 'equality is symmetric')


@contract('C14', EQ, trials=600, slow=True)
def failing_comparison():
    """The comparison of a property raises: the error propagates and no trace is left."""
    props = mkdict('props', eq_prop, NAMES)
    cls = abs_class(Owner, props)
    va = mkdict('a', lambda k: uf_value('stored in a', k), NAMES)
    vb = mkdict('b', lambda k: uf_value('stored in b', k), NAMES)
    a, b = new_instance(cls, _backend=va), new_instance(cls, _backend=vb)
    result, err = None, None
    try:
        result = properties.equal(a, b)
    except Exception as e:
        err = e
    untouched(a, b)
    want, first = True, None
    for k in props:
        x, y = va.get(k, None), vb.get(k, None)
        if x is None and y is None:
            continue
        if x is None or y is None:
            want = False
            break
        if uf_rare('equal raises', props[k], x, y):
            first = uf_exc('equal error', props[k], x, y)
            break
        if not uf_bool('equal', props[k], x, y):
            want = False
            break
    check(err is first, 'the error of the comparison propagates')
    if first is None:
        check((result is True) == want, 'the result is right')


@contract('C14', EQ + ['properties.base.instance:Instance.equal'], trials=300)
def identity_classes_and_others():
    """The same instance, instances of other classes, and other operands."""
    props = mkdict('props', abs_prop, NAMES)
    cls = abs_class(Owner, props)
    va = mkdict('a', lambda k: uf_value('stored in a', k), NAMES)
    a = new_instance(cls, _backend=va)
    prop = properties.Instance('doc', properties.HasProperties)
    compare = properties.equal if any_bool('directly') else prop.equal
    check(compare(a, a) is True, 'an instance equals itself')
    other = new_instance(HookOwner, _backend={})
    check(compare(a, other) is False and compare(other, a) is False, 'not one of another class')
    sub = new_instance(Derived, _backend={})
    base = new_instance(Owner, _backend={})
    check(compare(base, sub) is False and compare(sub, base) is False, 'nor of a subclass')
    check(compare(base, new_instance(Owner, _backend={})) is True, 'two without properties are equal')
    untouched(a, other, sub, base)


class Derived(Owner):
    _REGISTRY = dict()


@contract('C14', EQ + ['properties.base.instance:Instance.equal'], trials=300)
def plain_operands():
    """With an operand that is no instance of HasProperties it is ==."""
    v = choose('v', [any_int('vi'), any_str('vs'), any_float('vf'), None])
    w = choose('w', [any_int('wi'), any_str('ws'), any_float('wf'), None])
    prop = properties.Instance('doc', object)
    compare = properties.equal if any_bool('directly') else prop.equal
    check(same(compare(v, w), v == w), 'values are compared with ==')
    inst = new_instance(Owner, _backend={})
    check(compare(inst, v) is (inst == v), 'also with an instance on the left')
    check(compare(v, inst) is (v == inst), 'or on the right')
    untouched(inst)


# ---------------------------------------------------------------- containers
class EqElem(properties.Property):
    def equal(self, value_a, value_b):
        return uf_bool('equal', value_a, value_b)


CONT = ['properties.base.containers:Tuple.equal', 'properties.base.containers:Dictionary.equal',
        'properties.base.containers:Set.equal', 'properties.basic:GettableProperty.equal',
        'properties.base.instance:Instance.equal', 'properties.base.union:Union.equal']


def eq_elem(name):
    return abstract(EqElem, name, (), lambda: {'_name': 'x', '_meta': {}, '_required': False, '_default': undefined})


@contract('C14', CONT, trials=500)
def sequences():
    """Lists and tuples of any length: equal lengths and pairwise equal elements."""
    kind = choose('kind', [properties.List, properties.Tuple])
    p = kind('doc', prop=eq_elem('elem'))
    a = mkseq('a', lambda i: uf_value('a', i))
    b = mkseq('b', lambda i: uf_value('b', i))
    if kind is properties.Tuple:
        a, b = tuple(a), tuple(b)
    result = p.equal(a, b)
    want = len(a) == len(b)
    if want:
        for x, y in zip(a, b):
            if not uf_bool('equal', x, y):
                want = False
    check(bool(result) == want, 'equal exactly when the lengths and all elements are')
    check(not p.equal(a, None) and not p.equal(5, b), 'not equal to what has no length')


@contract('C14', CONT, trials=1500)
def dictionaries():
    """Dictionaries of any size: the same keys with equal values."""
    p = properties.Dictionary('doc', value_prop=eq_elem('elem'))
    a = mkdict('a', lambda k: uf_value('a', k), ['p', 'q', 'r'])
    b = mkdict('b', lambda k: uf_value('b', k), ['p', 'q', 'r'])
    result = p.equal(a, b)
    cardinality(a, b)
    want = all(k in b and uf_bool('equal', a[k], b[k]) for k in a) and all(k in a for k in b)
    check(bool(result) == want, 'equal exactly when they have the same keys with equal values')


@contract('C14', CONT, trials=300)
def unions():
    """A union: equal for one of its alternatives."""
    a, b = eq_elem('a'), AbsProp('doc')
    p = properties.Union('doc', props=[a, b])
    x, y = uf_value('x', 0), uf_value('y', 0)
    check(bool(p.equal(x, y)) == (uf_bool('equal', x, y) or b.equal(x, y)), 'equal for one of the alternatives')


class Compared(object):
    """A value whose comparison gives anything."""

    def __init__(self, outcome):
        self.outcome = outcome

    def __eq__(self, other):
        if self.outcome == 'error':
            raise ValueError('not comparable')
        return self.outcome

    __hash__ = None


class Shaped(Compared):
    """A value whose comparison gives anything, with a shape."""

    shape = (2,)


class Answer(object):
    """The answer of an elementwise comparison of arrays."""

    def __init__(self, answers):
        self.answers = answers

    def all(self):
        return all(x for x in self.answers)


@contract('C14', CONT, trials=400)
def plain_values():
    """Plain properties compare with ==; elementwise comparisons must be true throughout; arrays that do not compare are unequal."""
    p = choose('prop', [properties.Property('doc'), properties.GettableProperty('doc')])
    kind = choose('outcome', ['bool', 'array', 'list', 'error', 'shaped', 'other shaped'])
    answers = mkseq('answers', lambda i: uf_bool('element equal', i))
    if kind == 'error':
        try:
            p.equal(Compared('error'), Compared(True))
            fail('other errors propagate')
        except ValueError:
            pass
        return
    if kind in ('shaped', 'other shaped'):
        a, b = (Shaped('error'), Compared(True)) if kind == 'shaped' else (Compared('error'), Shaped('error'))
        check(not p.equal(a, b), 'arrays of shapes that do not match are unequal')
        return
    want = all(x for x in answers)
    if kind == 'bool':
        want = any_bool('equal')
        got = p.equal(Compared(want), Compared('error'))
    elif kind == 'array':
        got = p.equal(Compared(Answer(answers)), Compared('error'))
    else:
        got = p.equal(Compared(answers), Compared('error'))
    check(bool(got) == want, 'equal exactly when == says so, for every element')


# ---------------------------------------------------------------- bounded: real values
class Thing(properties.HasProperties):
    _REGISTRY = dict()
    n = properties.Integer('n', required=False)
    f = properties.Float('f', required=False)
    s = properties.String('s', required=False)
    items = properties.List('items', properties.Float('i'), required=False)
    pair = properties.Tuple('pair', properties.Property('p'), required=False)
    group = properties.Set('group', properties.Integer('g'), required=False)
    table = properties.Dictionary('table', value_prop=properties.List('l', properties.Integer('i')), required=False)
    arr = properties.Array('arr', shape=('*',), dtype=float, required=False)
    child = properties.Instance('child', properties.HasProperties, required=False)
    kids = properties.List('kids', properties.Instance('k', properties.HasProperties), required=False)
    bag = properties.Set('bag', properties.Instance('b', properties.HasProperties), required=False)
    index = properties.Dictionary('index', value_prop=properties.Instance('v', properties.HasProperties), required=False)
    either = properties.Union('either', [properties.Integer('i'), properties.Instance('p', properties.HasProperties)], required=False)
    plain = properties.Property('plain', required=False)
    old_f = properties.Renamed('f', warn=False)
    old_child = properties.Renamed('child', warn=False)
    old_arr = properties.Renamed('arr', warn=False)

    @properties.Array('dyn', shape=('*',), dtype=float)
    def dyn_arr(self):
        return self.arr

    @properties.Instance('dyn', properties.HasProperties)
    def dyn_child(self):
        return self.child


class OtherThing(Thing):
    """The same properties, another class."""


VALUES = dict(n=[0, 1, 2], f=[0.0, 1.0, 1.5, float('nan')], s=['', 'a', 'b'], items=[[], [1.0], [1.0, 2.0], [2.0, 1.0]],
              pair=[(), (1,), ('a', 1)], group=[set(), {1}, {1, 2}, {2, 3}],
              table=[{}, {'a': [1]}, {'a': [1], 'b': []}, {'b': [1]}, {'a': [2]}],
              arr=[[0.0], [1.0, 2.0], [1.0, float('nan')], []],
              plain=[5, 'a', np.array([[1, 2], [3, 4]]), np.array([[1, 2], [3, 5]]), np.array([1, 2]), np.array([1, 2, 3]), [7, 8]])


def build(r, depth=0):
    t = (Thing if r.random() < 0.85 else OtherThing)()
    for k, vs in VALUES.items():
        if r.random() < 0.3:
            setattr(t, k, r.choice(vs))
    if depth < 2:
        if r.random() < 0.4:
            t.child = build(r, depth + 1)
        if r.random() < 0.3:
            t.kids = [build(r, depth + 1) for _ in range(r.randint(0, 2))]
        if r.random() < 0.25:
            t.bag = {build(r, depth + 1) for _ in range(r.randint(0, 2))}
        if r.random() < 0.25:
            t.index = {k: build(r, depth + 1) for k in r.sample(['a', 'b'], r.randint(0, 2))}
        if r.random() < 0.3:
            t.either = r.choice([5, build(r, depth + 1)])
    return t


def clone(r, t, change):
    """A copy, possibly changed in one place or with its keys in another order."""
    c = type(t)()
    b = t._backend
    for k in b:
        v = b[k]
        if k in ('child', 'either') and isinstance(v, Thing):
            v = clone(r, v, change)
        elif k == 'kids':
            v = [clone(r, x, change) for x in v]
        elif k == 'bag':
            v = {clone(r, x, change) for x in v}
        elif k == 'index':
            v = {j: clone(r, v[j], change) for j in reversed(list(v))}
        elif k == 'table':
            v = {j: list(v[j]) for j in reversed(list(v))}
        setattr(c, k, v)
    if r.random() < change:
        k = r.choice(sorted(VALUES))
        if r.random() < 0.4:
            delattr(c, k)
        else:
            setattr(c, k, r.choice(VALUES[k]))
    return c


def shape(v, path=()):
    """A canonical description: equal descriptions exactly for equal values."""
    if isinstance(v, Thing):
        if any(v is p for p in path):
            return 'cycle'
        return (type(v).__name__,) + tuple((k, shape(v._backend[k], path + (v,))) for k in sorted(v._backend))
    if isinstance(v, dict):
        return ('dict',) + tuple((k, shape(v[k], path)) for k in sorted(v))
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted((shape(x, path) for x in v), key=repr))
    if isinstance(v, (list, tuple)):
        return ('list',) + tuple(shape(x, path) for x in v)
    if hasattr(v, 'tolist'):
        return ('array', repr(v.tolist()))
    if v != v:
        return 'nan'
    return v


def all_things(v, seen):
    if isinstance(v, Thing):
        if id(v) in seen:
            return
        seen[id(v)] = v
        for x in v._backend.values():
            all_things(x, seen)
    elif isinstance(v, dict):
        for x in v.values():
            all_things(x, seen)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            all_things(x, seen)


@bounded('C14', EQ + CONT, trials=1200)
def random_instances():
    """Random nested instances against a canonical description of their values."""
    r = rng()
    a = build(r)
    b = clone(r, a, r.choice([0, 0, 0.15, 0.5])) if r.random() < 0.8 else build(r)
    da, db = shape(a), shape(b)
    note('values', (da, db))
    want = da == db
    for x, y in ((a, b), (b, a)):
        check(properties.equal(x, y) is want, 'equal exactly when classes and values are', (da, db))
    for x, y in ((a, a), (b, b)):
        check(properties.equal(x, y) is True, 'an instance equals itself')
    check((shape(a), shape(b)) == (da, db), 'the values are not changed')
    seen = {}
    all_things(a, seen)
    all_things(b, seen)
    untouched(*seen.values())
    for x in seen.values():
        check('_testing_equality' not in x._backend, 'nothing is stored')
    for k in ('kids', 'bag', 'index', 'items', 'group', 'table', 'pair'):
        if k in a._backend and k in b._backend:
            x, y = a._backend[k], b._backend[k]
            p = Thing._props[k]
            check(bool(p.equal(x, y)) == (shape(x) == shape(y)), 'containers are equal when their elements are', (k, shape(x), shape(y)))
            check(bool(p.equal(y, x)) == (shape(x) == shape(y)), 'symmetric', (k, shape(x), shape(y)))


class Explosive(object):
    """== raises."""

    def __eq__(self, other):
        raise ZeroDivisionError('eq')

    def __hash__(self):
        return 1


class Ring(properties.HasProperties):
    _REGISTRY = dict()
    x = properties.Property('x', required=False)
    nxt = properties.Instance('next', properties.HasProperties, required=False)
    kids = properties.List('kids', properties.Instance('kid', properties.HasProperties), required=False)


@bounded('C14', EQ, trials=400)
def rings_and_errors():
    """Self-referencing structures, and values whose comparison raises: it ends, and leaves no trace."""
    r = rng()
    ns = [Ring(x=r.choice([1, 2])) for _ in range(r.randint(1, 4))]
    plan = []
    for i, n in enumerate(ns):
        if r.random() < 0.7:
            j = r.randrange(len(ns))
            n.nxt = ns[j]
            plan.append((i, j))
        if r.random() < 0.4:
            js = [r.randrange(len(ns)) for _ in range(r.randint(1, 2))]
            n.kids = [ns[j] for j in js]
            plan.append((i, js))
        if r.random() < 0.15:
            n._backend['x'] = Explosive()
            plan.append((i, 'explosive'))
    note('plan', plan)
    for a in ns:
        for b in ns:
            outcomes = []
            for again in range(2):
                try:
                    outcomes.append(properties.equal(a, b))
                except ZeroDivisionError:
                    outcomes.append('raises')
                untouched(*ns)
            check(outcomes[0] == outcomes[1], 'a comparison does not influence the next', outcomes)
            check(outcomes[0] in (True, False, 'raises'), 'the result is a boolean', outcomes)
            if a is b:
                check(outcomes[0] is True, 'an instance equals itself')
    for n in ns:
        n._backend.clear()
        n.x = 1
    check(all(properties.equal(a, b) is True for a in ns for b in ns), 'afterwards they compare as usual')


@bounded('C14', CONT, trials=500)
def sets_match():
    """Sets are equal when their elements can be matched, whatever the iteration order."""
    r = rng()
    pool = [Ring(x=r.choice([1, 2, 3])) for _ in range(6)]
    a, b = {r.choice(pool) for _ in range(r.randint(0, 4))}, {r.choice(pool) for _ in range(r.randint(0, 4))}
    p = properties.Set('s', properties.Instance('i', Ring))
    want = sorted(n.x for n in a) == sorted(n.x for n in b)
    note('sets', (sorted(n.x for n in a), sorted(n.x for n in b)))
    ca, cb = set(a), set(b)
    check(bool(p.equal(a, b)) == want and bool(p.equal(b, a)) == want, 'equal when they match one to one')
    check(a == ca and b == cb, 'the sets are not modified')
    check(not p.equal(a, 5) and not p.equal(None, b), 'not equal to what is no set')


class Member(object):
    """A hashable element; members of the same kind are equal under the element property."""

    def __init__(self, kind):
        self.kind = kind


class SameKind(properties.Property):
    """The element property of the sets below: any equivalence relation."""

    def equal(self, value_a, value_b):
        return value_a.kind == value_b.kind


@contract('C14', ['properties.base.containers:Set.equal'], trials=400, bound='sets of at most three elements')
def sets_are_matched():
    """Two sets are equal under Set.equal exactly if their elements can be matched one to one under the element property, for
    every equivalence relation; they are not modified."""
    na, nb = choose('size of a', [0, 1, 2, 3]), choose('size of b', [0, 1, 2, 3])
    ma = [Member(any_int('a%d' % i)) for i in range(na)]
    mb = [Member(any_int('b%d' % i)) for i in range(nb)]
    a, b = set(), set()
    for m in ma:
        a.add(m)
    for m in mb:
        b.add(m)
    if na and nb and choose('shared element', [False, True]):
        b.remove(mb[0])
        mb[0] = ma[0]
        b.add(ma[0])
    p = properties.Set('s', SameKind('member'))
    got = p.equal(a, b)
    want = na == nb
    if want:
        for x in ma:
            if len([1 for y in ma if y.kind == x.kind]) != len([1 for y in mb if y.kind == x.kind]):
                want = False
    check((got is True) == want and (got is False) != want, 'equal exactly when the elements can be matched')
    check(len(a) == na and len(b) == nb, 'the sets are not modified')
    for x in ma:
        check(x in a, 'the sets are not modified')
    for x in mb:
        check(x in b, 'the sets are not modified')
    cover('equal' if want else 'different')
