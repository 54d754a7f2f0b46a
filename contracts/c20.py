"""C20: UIDs: a consistent registry, flat serialization of graphs, pointers."""
import properties
import properties.extras
from properties import undefined, handlers
from properties.extras import HasUID, Pointer
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from pyvc.api import *           # noqa

UIDS = ['properties.extras.uid:HasUID.__init__', 'properties.extras.uid:HasUID._ensure_unique',
        'properties.extras.uid:HasUID._update_instances', 'properties.extras.uid:HasUID.load']
SER = ['properties.extras.uid:HasUID.serialize']
DES = ['properties.extras.uid:HasUID.deserialize']
POINT = ['properties.extras.uid:Pointer.validate']
POINTD = ['properties.extras.uid:Pointer.deserialize']


class Node(HasUID):
    """Something with a uid."""

    _REGISTRY = dict()
    _INSTANCES = dict()


# ---------------------------------------------------------------- pointers
class Target(HasUID):
    """validate_uid, load and deserialize by contract: any functions."""

    _REGISTRY = dict()
    _INSTANCES = dict()

    def __len__(self):
        return 0 if self.uid == 'known' else 1

    @classmethod
    def validate_uid(cls, uid):
        log('validate_uid', uid)
        if uf_bool('uid refused', uid):
            raise properties.ValidationError('refused', 'invalid', 'uid', None)
        return True

    @classmethod
    def load(cls, uid):
        log('load', uid)
        if uf_bool('known', uid):
            return KNOWN
        return None

    @classmethod
    def deserialize(cls, value, trusted=False, strict=False, assert_valid=False, **kwargs):
        log('deserialize', value, trusted, strict, assert_valid)
        if uf_rare('not deserializable', value):
            raise uf_exc('deserialize error', value)
        return KNOWN


class Data(object):
    """Not a HasProperties class."""


class Plain(properties.HasProperties):
    """No uid, no load."""

    _REGISTRY = dict()


class Hollow(properties.HasProperties):
    """Its instances are false."""

    _REGISTRY = dict()

    def __len__(self):
        return 0


KNOWN = Target(uid='known')
OTHER = Target(uid='other')
STRANGER = Plain()
HOLLOW = Hollow()


@contract('C20', POINT, trials=600)
def pointer_values():
    """A Pointer: None, any text, an instance."""
    load = any_bool('load')
    cls = choose('instance class', [Target, Plain])
    p = Pointer('doc', cls, load=load, required=False)
    p.name = 'x'
    if any_bool('another name'):
        p.uid_prop = 'nothing'
    inst = choose('instance', [None, Owner()])
    value = choose('value', [None, any_str('uid'), KNOWN, OTHER, STRANGER, HOLLOW])
    clear_trace()
    try:
        got = p.validate(inst, value)
    except properties.ValidationError:
        calls = trace()
        if value is None:
            cover('none')
        elif isinstance(value, str):
            cover('refused')
            check(cls is Target and uf_bool('uid refused', value), 'only invalid uids are rejected')
        else:
            cover('stranger')
            check(not isinstance(value, cls), 'instances are accepted')
        return
    check(value is not None, 'None is rejected')
    if isinstance(value, str):
        if cls is Target:
            check(not uf_bool('uid refused', value), 'an invalid uid is rejected')
        if cls is Target and load and uf_bool('known', value):
            check(got is KNOWN, 'the instance that load finds')
            cover('loaded')
        else:
            check(got == value, 'otherwise the uid is kept as text')
            cover('text')
    else:
        check(isinstance(value, cls), 'other things are no pointers')
        check(got is value, 'an instance is kept')
        cover('instance')


@contract('C20', POINTD, trials=400)
def pointer_deserialize():
    """Text stays text, None stays None, dictionaries are deserialized by the class."""
    registered = any_bool('registered')
    p = Pointer('doc', Target, required=False)
    if registered:
        def custom(value, **kwargs):
            log('custom', value, kwargs.get('trusted', 'absent'), kwargs.get('strict', 'absent'), len(kwargs))
            return uf_value('custom', value)
        p.deserializer = custom
    trusted, strict = any_bool('trusted'), any_bool('strict')
    value = choose('value', [None, any_str('uid'), uf_data('dictionary', 0)])
    other = any_bool('another class')
    if other:
        p.instance_class = Data
    isdict = not (value is None or isinstance(value, str))
    if isdict:
        assume(not isinstance(value, str) and value is not None)
    clear_trace()
    try:
        got = p.deserialize(value, trusted=trusted, strict=strict)
    except Exception:
        check(isdict and not registered and (other or uf_rare('not deserializable', value)), 'only a dictionary may fail')
        return
    if registered:
        check(same(got, uf_value('custom', value)), 'a registered deserializer is used')
        check(same_seq(trace(), [('custom', value, trusted, strict, 2)]), 'with the flags given')
    elif value is None:
        check(got is None, 'None stays None')
    elif not isdict:
        check(got == value, 'a uid stays a uid')
        check(len(trace()) == 0, 'nothing is looked up')
    elif other:
        fail('what is not a HasProperties class has no dictionary')
    else:
        check(not uf_rare('not deserializable', value), 'errors of the class are raised')
        check(got is KNOWN, 'a dictionary is deserialized by the class')
        check(same_seq(trace(), [('deserialize', value, trusted, strict, False)]), 'with the flags given')


# ---------------------------------------------------------------- the registry of uids
def fresh():
    Node._INSTANCES.clear()


@contract('C20', UIDS, trials=1500)
def new_and_renamed():
    """Two instances with any uids, one of them renamed or deleted: the registry agrees with the uids."""
    fresh()
    one, two, three = any_str('one'), any_str('two'), any_str('three')
    # the generated uids have 36 characters; that they are new is uuid.uuid4's business
    assume(len(one) != 36 and len(two) != 36 and len(three) != 36)
    a = Node(uid=one)
    check(a.uid == one and Node.load(one) is a, 'an instance is loaded by its uid')
    check(Node.load(two) is (a if one == two else None), 'and by no other')
    b = None
    try:
        b = Node(uid=two)
        check(one != two, 'a uid in use is rejected')
        check(b.uid == two and Node.load(two) is b, 'the second is loaded by its uid')
    except properties.ValidationError:
        check(one == two, 'a free uid is accepted')
        cover('duplicate')
    check(Node.load(one) is a, 'the first is still loaded by its uid')
    if b is None:
        check(len(Node._INSTANCES) == 1, 'and nothing else is registered')
        return
    how = choose('then', ['rename', 'delete', 'undefined', 'bad'])
    if how == 'rename':
        try:
            b.uid = three
            check(three != one, 'a uid in use is rejected')
            check(b.uid == three and Node.load(three) is b, 'it is loaded by its new uid')
            if three != two:
                check(Node.load(two) is None, 'and no longer by its old uid')
        except properties.ValidationError:
            check(three == one, 'a free uid is accepted')
            check(b.uid == two and Node.load(two) is b, 'the instance keeps its old uid')
            cover('kept')
        check(len(Node._INSTANCES) == 2, 'nothing else is registered')
    elif how == 'bad':
        try:
            b.uid = choose('bad', [None, 5, [two]])
            fail('only text is a uid')
        except properties.ValidationError:
            check(b.uid == two and Node.load(two) is b, 'the instance keeps its old uid')
        check(len(Node._INSTANCES) == 2, 'nothing else is registered')
    else:
        if how == 'delete':
            del b.uid
        else:
            b.uid = undefined
        check(b.uid is None and Node.load(two) is None, 'an instance without uid is not loaded')
        check(len(Node._INSTANCES) == 1, 'nothing else is registered')
    check(a.uid == one and Node.load(one) is a, 'the first is still loaded by its uid')


# ---------------------------------------------------------------- serialization
SAVED = [None, None, None, None]
NAMES = ['x', 'y', 'z']


class SavedProp(AbsProp):
    """serialize by contract: any function of the value; it is given the registry and the keywords."""

    def serialize(self, value, **kwargs):
        check('__root__' in kwargs['registry'] and SAVED[0] in kwargs['registry'],
              'every serializer gets the registry, with the instance already in it')
        check(kwargs['include_class'] is SAVED[1] and kwargs['save_dynamic'] is SAVED[2] and same(kwargs['extra'], SAVED[3]),
              'and the keywords')
        return uf_value('serialized', self, value)


def saved_prop(key):
    return abstract(SavedProp, 'prop', (key,), prop_fields)


@contract('C20', SER, trials=800, slow=True)
def serialize_any():
    """serialize of any instance, as root or within another call."""
    given = choose('registry', ['absent', 'empty', 'others', 'itself'])
    uid = any_str('uid')
    assume(uid != '__root__' and uid != 'top')
    SAVED[0], SAVED[1], SAVED[2], SAVED[3] = uid, any_bool('include_class'), any_bool('save_dynamic'), uf_value('extra', 0)
    props = mkdict('props', saved_prop, NAMES + ['uid'])
    assume('__class__' not in props and 'uid' in props)
    cls = abs_class(Node, props)
    stored = {k: uf_value('stored', k) for k in props if k != 'uid' and uf_bool('has', k)}
    stored['uid'] = uid
    inst = new_instance(cls, _backend=stored)
    top, mine = uf_value('top', 0), uf_value('mine', 0)
    kw = {'extra': SAVED[3]}
    reg = None
    if given == 'empty':
        reg = {}
    elif given == 'others':
        reg = {'__root__': 'top', 'top': top}
    elif given == 'itself':
        reg = {'__root__': 'top', 'top': top, uid: mine}
    if reg is not None:
        kw['registry'] = reg
    result = inst.serialize(include_class=SAVED[1], save_dynamic=SAVED[2], **kw)
    check(inst._backend is stored, 'the instance is not modified')
    if given in ('others', 'itself'):
        check(result == uid, 'within another call the result is the uid')
        flat = reg
        check(flat['__root__'] == 'top' and same(flat['top'], top), 'other entries are left alone')
        check(len(flat) == 3, 'one entry per instance')
    else:
        flat = result
        check(flat['__root__'] == uid, 'the root is named')
        check(given == 'absent' or result is reg, 'the registry given is filled')
        check(len(flat) == 2, 'one entry per instance')
    if given == 'itself':
        check(same(flat[uid], mine), 'an instance that is there is not serialized again')
        return
    entry = flat[uid]
    check(('__class__' in entry) == SAVED[1], 'the class is named exactly when asked for')
    k = any_name('key', NAMES + ['uid'])
    if k == '__class__':
        return
    if k in props and (SAVED[2] or k == 'uid' or uf_bool('has', k)):
        v = uf_value('serialized', props[k], stored.get(k, None))
        check(same(entry.get(k, None), v), 'each property has its serialized value')
        check((k in entry) == (v is not None), 'and is absent if that is None')
    else:
        check(k not in entry, 'nothing else is in the entry')


# ---------------------------------------------------------------- deserialization
class Pair(HasUID):
    """Two references."""

    _REGISTRY = dict()
    _INSTANCES = dict()
    left = properties.Instance('left', HasUID, required=False)
    right = properties.Instance('right', HasUID, required=False)


Pair._props['left'].instance_class = Pair
Pair._props['right'].instance_class = Pair


class PairPlus(Pair):
    """A subclass."""


class Need(HasUID):
    """A reference and a required value."""

    _REGISTRY = dict()
    _INSTANCES = dict()
    other = properties.Instance('other', HasUID, required=False)
    must = properties.Integer('must')


Need._props['other'].instance_class = Need


class NeedMore(Need):
    """A subclass."""


@contract('C20', DES, trials=900, slow=True)
def deserialize_root():
    """Which instance deserialize returns, for any root, any uid in the dictionary and any uid in use."""
    Pair._INSTANCES.clear()
    used, there, asked = any_str('used'), any_str('there'), any_str('asked')
    assume(there != '__root__' and asked != '__root__' and used != '__root__')
    assume(len(used) != 36 and len(there) != 36 and len(asked) != 36)
    old = Pair(uid=used)
    flat = {'__root__': asked, there: {'uid': there, '__class__': 'Pair'}}
    kw = {}
    if any_bool('root given'):
        flat['__root__'] = any_str('another')
        kw['root'] = asked
    trusted = any_bool('trusted')
    try:
        got = Pair.deserialize(flat, trusted=trusted, **kw)
    except ValueError:
        check((asked != there and asked != used) or (asked == there and asked == used),
              'a dictionary whose root is there and not in use is accepted')
        check(Pair.load(used) is old and old.uid == used, 'the instance in use stays')
        check(len(Pair._INSTANCES) == 1, 'nothing is registered')
        cover('rejected')
        return
    if asked == there:
        check(asked != used, 'a uid in use is rejected')
        check(type(got) is Pair and got is not old, 'a new instance')
        check(got.uid == asked, 'with the uid of the dictionary')
        check(Pair.load(asked) is got, 'that is loaded by its uid')
        check(len(Pair._INSTANCES) == 2, 'nothing else is registered')
        cover('built')
    else:
        check(asked == used, 'an unknown root is rejected')
        check(got is old, 'an instance in use is returned when the dictionary does not have it')
        check(len(Pair._INSTANCES) == 1, 'nothing is registered')
        cover('in use')
    check(Pair.load(used) is old, 'the instance in use is loaded by its uid')
    check(len(flat) == 2, 'the dictionary is not modified')


@contract('C20', DES, trials=900, slow=True)
def deserialize_two():
    """Two instances that refer to each other, to themselves or to one in use, in any way: the same graph, with identity."""
    Pair._INSTANCES.clear()
    old = Pair(uid='old')
    names = ['one', 'two', 'old', 'nowhere', None]
    trusted = any_bool('trusted')
    plus = 'PairPlus'
    l1, r1 = choose('left of the first', names), choose('right of the first', ['two', None])
    l2, r2 = choose('left of the second', names), choose('right of the second', ['one', 'two', None])
    one = {'uid': 'one', '__class__': 'Pair'}
    two = {'uid': 'two', '__class__': plus}
    if l1 is not None:
        one['left'] = l1
    if r1 is not None:
        one['right'] = r1
    if l2 is not None:
        two['left'] = l2
    if r2 is not None:
        two['right'] = r2
    reached = 'two' in (l1, r1)
    broken = 'nowhere' in (l1, r1) or (reached and 'nowhere' in (l2, r2))
    try:
        got = Pair.deserialize({'__root__': 'one', 'one': one, 'two': two}, trusted=trusted)
    except ValueError:
        check(broken, 'a complete dictionary is accepted')
        cover('rejected')
        return
    check(not broken, 'a reference to nothing is rejected')
    check(type(got) is Pair and got.uid == 'one' and Pair.load('one') is got, 'the root')
    second = Pair.load('two')
    check((second is not None) == reached, 'exactly what is reachable is built')
    graph = {'one': got, 'two': second, 'old': old, None: None}
    check(got.left is graph[l1] and got.right is graph[r1], 'the references of the root')
    if reached:
        check(second.uid == 'two', 'with its uid')
        check(type(second) is (PairPlus if trusted and plus == 'PairPlus' else Pair), 'the class named, if trusted')
        check(second.left is graph[l2] and second.right is graph[r2], 'the references of the second')
    check(old.left is None and old.right is None, 'an instance in use is not modified')
    check(len(Pair._INSTANCES) == 2 + (1 if reached else 0), 'nothing else is registered')


@contract('C20', POINT + ['properties.extras.uid:HasUID.validate_uid', 'properties.extras.uid:Pointer.load'], trials=300)
def pointers_to_uids():
    """A Pointer to a HasUID class: any text is accepted; it becomes the instance exactly when that is wanted and known."""
    fresh()
    used, text = any_str('used'), any_str('text')
    assume(len(used) != 36)
    a = Node(uid=used)
    p = Pointer('doc', Node, load=any_bool('load'), required=False)
    p.name = 'x'
    got = p.validate(None, text)
    check(got is a if p.load and text == used else got == text, 'the text, or the instance it names')
    check(p.validate(None, a) is a, 'an instance stays')
    check(Node.load(used) is a and len(Node._INSTANCES) == 1, 'the registry is not modified')


class Own(HasUID):
    """The root of a family with two registries."""

    _REGISTRY = dict()
    _INSTANCES = dict()
    other = properties.Instance('other', HasUID, required=False)


class OwnSub(Own):
    """A member that keeps a registry of its own."""

    _INSTANCES = dict()


Own._props['other'].instance_class = Own


@contract('C20', DES, trials=900, slow=True)
def deserialize_own_registry():
    """A trusted class with a registry of its own: its instance is loaded through it, whichever class is asked."""
    Own._INSTANCES.clear()
    OwnSub._INSTANCES.clear()
    root, inner, used = any_str('root'), any_str('inner'), any_str('used')
    assume(root != inner and root != '__root__' and inner != '__root__' and used != '__root__')
    assume(len(root) != 36 and len(inner) != 36 and len(used) != 36)
    sub = choose('which has its own registry', ['root', 'inner'])
    old = OwnSub(uid=used)
    check(Own.load(used) is None, 'an instance is not in the registry of another class')
    names = {'root': 'Own', 'inner': 'Own'}
    names[sub] = 'OwnSub'
    flat = {'__root__': root, root: {'uid': root, '__class__': names['root'], 'other': inner},
            inner: {'uid': inner, '__class__': names['inner']}}
    mine = root if sub == 'root' else inner
    others = inner if sub == 'root' else root
    try:
        got = Own.deserialize(flat, trusted=True)
    except ValueError:
        check(mine == used, 'a uid that is free in the registry of the class is accepted')
        check(OwnSub.load(used) is old and old.uid == used, 'the instance in use stays')
        cover('in use')
        return
    check(mine != used, 'a uid in use in the registry of the class is rejected')
    a = got if sub == 'root' else got.other
    b = got.other if sub == 'root' else got
    check(type(a) is OwnSub and type(b) is Own, 'the classes named')
    check(a.uid == mine and b.uid == others, 'with their uids')
    check(OwnSub.load(mine) is a and Own.load(others) is b, 'each is loaded through its class')
    check(OwnSub.load(used) is old, 'the instance in use stays')
    check(len(OwnSub._INSTANCES) == 2 and len(Own._INSTANCES) == 1, 'nothing else is registered anywhere')
    cover('built')


class Empty(HasUID):
    """A property that any value is good for, and one that None is not."""

    _REGISTRY = dict()
    _INSTANCES = dict()
    plain = properties.Property('plain', default=5, required=False)
    number = properties.Integer('number', default=6, required=False)


@contract('C20', DES, trials=300)
def null_entries():
    """null in a flat dictionary: assigned like any other value, so not taken where None is no value."""
    Empty._INSTANCES.clear()
    plain = choose('plain', ['absent', None, 1])
    number = choose('number', ['absent', None, 2])
    entry = {'uid': 'root', '__class__': 'Empty'}
    if plain != 'absent':
        entry['plain'] = plain
    if number != 'absent':
        entry['number'] = number
    try:
        got = Empty.deserialize({'__root__': 'root', 'root': entry})
    except ValueError:
        check(number is None and number in entry.values(), 'valid values are accepted')
        return
    check(number is not None, 'None is not made valid')
    check(got.plain == (5 if plain == 'absent' else plain), 'the value given, or the default')
    check(got.number == (6 if number == 'absent' else number), 'of every property')


# ---------------------------------------------------------------- bounded: graphs and histories


@contract('C20', DES, trials=900, slow=True)
def deserialize_flags():
    """trusted, strict and assert_valid, at the root and in an instance it refers to."""
    Need._INSTANCES.clear()
    trusted, strict, assert_valid = any_bool('trusted'), any_bool('strict'), any_bool('assert valid')
    flat = {'__root__': 'root'}
    where = choose('where', ['root', 'inner'])
    classes, wrong, invalid = {}, False, False
    for name in ['root', 'inner']:
        entry = {'uid': name}
        named = choose('class', [None, 'Need', 'NeedMore', 'Pair']) if name == where else 'Need'
        if named is not None:
            entry['__class__'] = named
        given = trusted and named == 'NeedMore'
        classes[name] = NeedMore if given else Need
        if strict and not given and named not in (None, 'Need'):
            wrong = True
        if name == where and any_bool('an unused key'):
            entry['unused'] = uf_value('unused', name)
            wrong = wrong or strict
        if name != where or any_bool('complete'):
            entry['must'] = 5
        else:
            invalid = True
        flat[name] = entry
    flat['root']['other'] = 'inner'
    try:
        got = Need.deserialize(flat, trusted=trusted, strict=strict, assert_valid=assert_valid)
    except ValueError:
        check(wrong or (invalid and assert_valid), 'a dictionary that the flags allow is accepted')
        cover('rejected')
        return
    check(not wrong, 'strict rejects other classes and unused keys, in every entry')
    check(not (invalid and assert_valid), 'assert_valid rejects invalid instances, in every entry')
    check(type(got) is classes['root'] and type(got.other) is classes['inner'], 'the classes named, if trusted')
    check(got.uid == 'root' and got.other.uid == 'inner', 'with their uids')
    check(Need.load('root') is got and Need.load('inner') is got.other, 'and loaded by them')
    cover('accepted')


def graph_classes(registry, instances):
    """Vertex classes with every kind of reference, with a registry of their own."""
    class Base(HasUID):
        """The base."""

        _REGISTRY = registry
        _INSTANCES = instances
        tag = properties.Integer('tag', required=False)
        must = properties.String('must', required=True)

    class Node_(Base):
        """References of every kind."""

        one = properties.Instance('one', Base, required=False)
        two = properties.Instance('two', Base, required=False)
        many = properties.List('many', properties.Instance('m', Base), required=False)
        pair = properties.Tuple('pair', properties.Instance('p', Base), required=False)
        table = properties.Dictionary('table', value_prop=properties.Instance('t', Base), required=False)
        either = properties.Union('either', [properties.Integer('i'), properties.Instance('u', Base)], required=False)
        point = Pointer('pointer', Base, required=False)

    class Loader(Node_):
        """A pointer that loads."""

        near = Pointer('loading pointer', Base, load=True, required=False)
    return Base, Node_, Loader


def random_graph(r, classes):
    count = r.randint(1, 5)
    nodes = []
    for i in range(count):
        c = r.choice(classes[1:]) if i == 0 else r.choice(classes)
        kw = {'uid': 'n%d' % i, 'must': 'text'} if r.random() < 0.8 else {'must': 'other'}
        if r.random() < 0.5:
            kw['tag'] = r.randint(0, 9)
        nodes.append(c(**kw))
    for n in nodes:
        if not hasattr(n, 'many'):
            continue
        pick = lambda: r.choice(nodes)      # noqa
        if r.random() < 0.4:
            n.one = pick()
        if r.random() < 0.4:
            n.two = pick()
        if r.random() < 0.4:
            n.many = [pick() for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            n.pair = tuple([pick() for _ in range(r.randint(0, 2))])
        if r.random() < 0.3:
            n.table = {k: pick() for k in r.sample(['a', 'b'], r.randint(0, 2))}
        if r.random() < 0.3:
            n.either = r.choice([3, pick()])
        if r.random() < 0.4:
            n.point = r.choice([pick(), pick().uid, 'some text'])
        if hasattr(n, 'near') and r.random() < 0.4:
            n.near = r.choice([pick(), 'some text', pick().uid])
    return nodes


def edges(n):
    """The values of an instance with uids for instances (pointers included)."""
    def flat(v):
        if isinstance(v, HasUID):
            return ('uid', v.uid)
        if isinstance(v, dict):
            return {k: flat(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [flat(x) for x in v]
        return v
    out = {}
    for k, v in n._backend.items():
        if k in ('point', 'near'):
            out[k] = v.uid if isinstance(v, HasUID) else v
        else:
            out[k] = flat(v)
    return out


def references(n, pointers):
    for k, v in n._backend.items():
        if k in ('point', 'near') and not pointers:
            continue
        for x in (v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, HasUID):
                yield x


def reachable(root, pointers):
    seen, todo = {}, [root]
    while todo:
        n = todo.pop()
        if id(n) in seen:
            continue
        seen[id(n)] = n
        todo.extend(references(n, pointers))
    return list(seen.values())


@bounded('C20', SER + DES + POINT + POINTD, trials=900)
def graphs():
    """Random graphs: flat form, one entry each, and back to the same graph with identity."""
    import json
    r = rng()
    registry, instances = dict(), dict()
    classes = graph_classes(registry, instances)
    nodes = random_graph(r, classes)
    root = nodes[0]
    before = [edges(n) for n in nodes]
    with_class = r.random() < 0.8
    flat = root.serialize(include_class=with_class)
    note('input', flat)
    flat = json.loads(json.dumps(flat))
    there = reachable(root, True)
    check(set(flat) == {n.uid for n in there} | {'__root__'}, 'one entry for each reachable instance, under its uid', lambda: flat)
    check(flat['__root__'] == root.uid, 'the root is named')
    for n in there:
        e = flat[n.uid]
        check(e.get('uid') == n.uid and ('__class__' in e) == with_class, 'each entry is the instance', lambda: e)
        if with_class:
            check(e['__class__'] == type(n).__name__, 'and its class')

        def plain(v):
            if isinstance(v, tuple):
                return v[1]
            if isinstance(v, list):
                return [plain(x) for x in v]
            if isinstance(v, dict):
                return {k: plain(x) for k, x in v.items()}
            return v
        want = {k: plain(v) for k, v in edges(n).items()}
        if with_class:
            want['__class__'] = type(n).__name__
        check(e == want, 'with uids in place of instances', lambda: (e, want))
    check([edges(n) for n in nodes] == before and all(instances.get(n.uid) is n for n in nodes), 'the graph is not modified')
    if not with_class:
        return
    # back again
    start = root
    kw = {}
    if r.random() < 0.2:
        start = r.choice([n for n in there])
        kw['root'] = start.uid
    for n in nodes:
        instances.pop(n.uid)
    copy = json.loads(json.dumps(flat))
    # a loading pointer whose instance appears while others are still being read keeps its text, which is then not
    # what its validate returns: such graphs are not valid
    valid = r.choice([True, False]) and not any('near' in n._backend for n in there)
    if r.random() < 0.15:
        victim = r.choice(there)
        flat[victim.uid].pop('must')
        bad = {victim.uid}
    else:
        bad = set()
    mine = {n.uid: n for n in reachable(start, False)}
    if bad:
        copy = json.loads(json.dumps(flat))
    strange = r.random() < 0.15
    strict = r.random() < 0.3
    if strange:
        odd = r.choice(there)
        flat[odd.uid]['nonsense'] = 5
        copy = json.loads(json.dumps(flat))
    elif strict:
        odd = None
    try:
        got = classes[0].deserialize(flat, trusted=True, strict=strict, assert_valid=valid, **kw)
    except ValueError as e:
        reason = (valid and bad & set(mine)) or (strict and strange and odd.uid in mine)
        check(bool(reason), 'a dictionary made by serialize is accepted', lambda: (flat, repr(e)))
        check(flat == copy, 'the dictionary is not modified')
        cover('rejected')
        return
    check(not (valid and bad & set(mine)), 'assert_valid rejects an invalid instance anywhere in the graph', lambda: (flat, bad))
    check(not (strict and strange and odd.uid in mine), 'strict rejects unused entries anywhere in the graph', lambda: flat)
    check(flat == copy, 'the dictionary is not modified')
    back = {n.uid: n for n in reachable(got, False)}
    check(got.uid == start.uid, 'the root is returned')
    check(set(back) == set(mine), 'the same instances')
    check(len(reachable(got, False)) == len(mine), 'each exactly once')
    check(not any(n is m for n in back.values() for m in nodes), 'all of them new')
    check({u: n for u, n in instances.items()} == back, 'each is loaded by its uid and nothing else is registered',
          lambda: (sorted(instances), sorted(back)))
    for u, n in back.items():
        check(type(n) is type(mine[u]), 'the same class')
        want, have = edges(mine[u]), edges(n)
        if u in bad:
            want.pop('must', None)
            have.pop('must', None)
        check(want == have, 'with the same values and references', lambda: (u, want, have))
    # again: everything is in use
    try:
        classes[0].deserialize(flat, trusted=True, **kw)
        fail('a uid in use is rejected')
    except ValueError:
        cover('twice')


@bounded('C20', UIDS + DES, trials=900)
def histories():
    """Random histories of creation, renaming, deletion, loading and deserialization against a reference model."""
    r = rng()
    registry, instances = dict(), dict()
    Base, Node_, Loader = graph_classes(registry, instances)
    names = ['a', 'b', 'c', 'd']
    alive, story = {}, []       # uid -> instance
    lost = []

    def agree():
        check(set(instances) == set(alive), 'the registry has exactly the uids in use', lambda: (story, sorted(instances), sorted(alive)))
        for u, n in alive.items():
            check(n.uid == u and Base.load(u) is n and Node_.load(u) is n, 'an instance is loaded by its uid', lambda: (story, u))
        for u in names:
            if u not in alive:
                check(Base.load(u) is None, 'and by no other', lambda: (story, u))
        check(all(n.uid is None for n in lost), 'a deleted uid reads None', lambda: story)
    for _ in range(r.randint(1, 12)):
        op = r.choice(['new', 'new', 'new', 'fresh', 'rename', 'rename', 'delete', 'bad', 'read', 'other', 'again', 'clash'])
        u = r.choice(names)
        story.append((op, u))
        note('input', story)
        if op == 'new':
            try:
                n = r.choice([Base, Node_, Loader])(uid=u)
                check(u not in alive, 'a uid in use is rejected', lambda: story)
                alive[u] = n
            except ValueError:
                check(u in alive, 'a free uid is accepted', lambda: story)
        elif op == 'fresh':
            n = Base()
            check(n.uid not in alive, 'a new uid is new')
            alive[n.uid] = n
        elif op in ('read', 'clash'):
            flat = {'__root__': u, u: {'uid': u, '__class__': r.choice(['Base', 'Node_'])}}
            try:
                n = Base.deserialize(flat, trusted=True)
                check(u not in alive, 'a uid in use is rejected', lambda: story)
                check(n.uid == u and type(n).__name__ == flat[u]['__class__'], 'it is what the dictionary says')
                alive[u] = n
            except ValueError:
                check(u in alive, 'a free uid is accepted', lambda: story)
        elif op == 'again':
            if u in alive:
                check(Base.deserialize({'__root__': u}) is alive[u], 'an instance in use is found', lambda: story)
            else:
                try:
                    Base.deserialize({'__root__': u})
                    fail('an unknown uid is rejected')
                except ValueError:
                    pass
        elif alive:
            old = r.choice(sorted(alive))
            n = alive[old]
            if op == 'rename':
                try:
                    n.uid = u
                    check(u == old or u not in alive, 'a uid in use is rejected', lambda: story)
                    del alive[old]
                    alive[u] = n
                except ValueError:
                    check(u in alive and u != old, 'a free uid is accepted', lambda: story)
            elif op == 'delete':
                if r.random() < 0.5:
                    del n.uid
                else:
                    n.uid = undefined
                del alive[old]
                lost.append(n)
            elif op == 'bad':
                try:
                    n.uid = r.choice([5, None, ['a']])
                    fail('only text is a uid')
                except ValueError:
                    pass
            elif op == 'other':
                n.tag = r.randint(0, 9)
            if lost and r.random() < 0.4:
                n = r.choice(lost)
                try:
                    n.uid = u
                    check(u not in alive, 'a uid in use is rejected', lambda: story)
                    alive[u] = n
                    lost.remove(n)
                except ValueError:
                    check(u in alive, 'a free uid is accepted', lambda: story)
        agree()
