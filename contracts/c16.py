"""C16: the properties, observers and validators of a class follow Python's MRO; classes are checked, registered, documented."""
import types
import itertools
import properties
import properties.extras
from properties import handlers
from properties.basic import GettableProperty, DynamicProperty, Renamed
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

NEW = ['properties.base.base:PropertyMetaclass.__new__', 'properties.base.base:build_from_bases']
REJ = ['properties.base.base:PropertyMetaclass.__new__']
DOC = NEW + ['properties.basic:GettableProperty.sphinx', 'properties.basic:Property.sphinx']


# ---------------------------------------------------------------- the oracle
class Mark(object):
    """What a class body gives a name; `what` is one of the KINDS below, `obj` the thing put in the body."""

    def __init__(self, what, obj, names=(), tag=None):
        self.what, self.obj, self.names, self.tag = what, obj, names, tag


class Twin(object):
    """A plain class with the same bases: its attribute lookup is Python's MRO."""


def lookup(twin):
    """{name: Mark} as Python's attribute lookup finds them on the twin class."""
    found = {}
    for cls in reversed(twin.__mro__):
        for k, v in vars(cls).items():
            if isinstance(v, Mark):
                found[k] = v
    return found


def make(name, bases, body):
    """What a class statement does."""
    return types.new_class(name, bases, {}, lambda ns: ns.update(body))


PROPS = ('integer', 'string', 'list', 'instance', 'uuid', 'dynamic', 'renamed')
MUTABLE = ('integer', 'string', 'list', 'instance')
HANDLERS = ('observer', 'validator', 'all', 'class')


class Item(properties.HasProperties):
    """Something to hold."""

    _REGISTRY = dict()


def new_mark(r, what, tag, log_, names):
    if what == 'integer':
        return Mark(what, properties.Integer('int %r' % (tag,), required=r.random() < 0.2))
    if what == 'string':
        return Mark(what, properties.String('str %r' % (tag,), required=False))
    if what == 'list':
        return Mark(what, properties.List('list %r' % (tag,), properties.Integer(''), required=False))
    if what == 'instance':
        return Mark(what, properties.Instance('inst %r' % (tag,), Item, required=False))
    if what == 'uuid':
        return Mark(what, properties.Uuid('uuid %r' % (tag,)))
    if what == 'dynamic':
        return Mark(what, properties.Integer('dyn %r' % (tag,))(lambda self: 5))
    if what == 'renamed':
        return Mark(what, properties.Renamed(r.choice(names), warn=False))
    if what == 'none':
        return Mark(what, None)
    if what == 'value':
        return Mark(what, r.choice([17, 'text', (1, 2)]))
    if what == 'method':
        def method(self):
            return ('method', tag)
        return Mark(what, method)
    if what == 'class':
        def check_it(self):
            log_.append(('class', tag))
            return True
        return Mark(what, properties.validator(check_it), (), tag)
    watched = r.sample(names, r.choice([1, 1, 2]))

    def handler(self, change):
        log_.append((what, tag, change['name']))
    if what == 'all':
        return Mark(what, properties.observer(properties.everything)(handler), properties.everything, tag)
    deco = properties.observer if what == 'observer' else properties.validator
    return Mark(what, deco(watched)(handler), tuple(watched), tag)


def snapshot_class(cls):
    return (list(cls._props.items()), [p.name for p in cls._props.values()], list(cls._prop_observers.items()),
            list(cls._class_validators.items()), cls.__doc__, dict(cls._defaults),
            [(o.names, o.mode) for o in cls._prop_observers.values()])


def judge(cls, twin, story, log_):
    """Does the class have exactly what Python's MRO selects, bound and working?"""
    found = lookup(twin)
    props = {k: m for k, m in found.items() if m.what in PROPS}
    check(set(cls._props) == set(props), 'its properties are those the MRO selects', lambda: (story, sorted(cls._props), sorted(props)))
    for k, m in props.items():
        check(cls._props[k] is m.obj, 'and each is the definition the MRO selects', lambda: (story, k))
        check(m.obj.name == k, 'bound to its attribute name', lambda: (story, k))
    watchers = {k: m for k, m in found.items() if m.what in ('observer', 'validator', 'all')}
    classwide = {k: m for k, m in found.items() if m.what == 'class'}
    check(set(cls._prop_observers) == set(watchers), 'its property handlers are those the MRO selects', lambda: story)
    check(set(cls._class_validators) - {'_validate_props'} == set(classwide), 'its class validators are those the MRO selects', lambda: story)
    check('_validate_props' in cls._class_validators, 'property validation is inherited', lambda: story)
    check(all(cls._prop_observers[k] is m.obj for k, m in watchers.items()), 'the very handlers the MRO selects', lambda: story)
    check(all(cls._class_validators[k] is m.obj for k, m in classwide.items()), 'the very class validators the MRO selects', lambda: story)
    for k, m in found.items():
        if m.what in ('none', 'value'):
            check(getattr(cls, k) == m.obj, 'a plain value overrides what it overrides', lambda: (story, k))
    try:
        inst = cls()
    except AttributeError:      # a Renamed property whose target was replaced in a subclass is useless
        check(any(m.what == 'renamed' for m in props.values()), 'an instance can be made', lambda: story)
        return
    for k, m in found.items():
        if m.what == 'method':
            check(callable(getattr(inst, k)), 'a method overrides what it overrides', lambda: (story, k))
    fresh = {'integer': 4, 'string': 'four', 'list': [4], 'instance': Item()}
    for k, m in props.items():
        if m.what not in MUTABLE:
            continue
        del log_[:]
        setattr(inst, k, fresh[m.what])
        got = sorted(e[1] for e in log_)
        want = []
        for h, w in watchers.items():
            if w.names is properties.everything or k in w.names:
                want.append(w.tag)
        check(got == sorted(want), 'each selected handler that watches a name fires once when it is set', lambda: (story, k, got, want))
        check(all(e[2] == k for e in log_), 'with that name', lambda: (story, k, got))
        check(getattr(inst, k) == fresh[m.what], 'and the value is set', lambda: (story, k))
        check(inst._backend[k] == fresh[m.what], 'under its own name', lambda: (story, k))
    for k, m in props.items():
        if m.what == 'dynamic':
            check(getattr(inst, k) == 5, 'a dynamic property computes', lambda: (story, k))
        elif m.what == 'uuid':
            check(getattr(inst, k) is not None, 'an immutable property has its default', lambda: (story, k))
    del log_[:]
    if all(m.what != 'renamed' or props.get(m.obj.new_name, m).what in MUTABLE for m in props.values()):
        inst.validate()
        got = sorted(e[1] for e in log_ if e[0] == 'class')
        check(got == sorted(m.tag for m in classwide.values()), 'validate() calls each selected class validator once', lambda: (story, log_))


def judge_docs(cls, found, story, private):
    lines = (cls.__doc__ or '').split('\n')
    section = ''
    where = {}
    for line in lines:
        if line.startswith('**') and line.endswith('Properties:**'):
            section = line.strip('*').split(' ')[0]
        elif line.startswith('* **'):
            where.setdefault(line[4:].split('**')[0], []).append((section, line))
    for k, m in found.items():
        if m.what not in PROPS:
            continue
        if k[0] == '_':
            if private is not None:
                check(len(where.get(k, [])) == (1 if private else 0), 'a private property is documented as _doc_private says', lambda: (story, k, cls.__doc__))
                if private:
                    check(where[k][0][0] == 'Private', 'in the private section', lambda: (story, k))
            continue
        check(len(where.get(k, [])) == 1, 'every public property is documented exactly once', lambda: (story, k, cls.__doc__))
        sec, line = where[k][0]
        check(('* ' + m.obj.sphinx()).split('\n')[0] == line, 'with its own documentation', lambda: (story, k, line))
        expect = 'Other'
        if m.what in MUTABLE:
            expect = 'Required' if m.obj.required else 'Optional'
        check(sec == expect, 'in its section', lambda: (story, k, sec))
    extra = [k for k in where if k not in found or found[k].what not in PROPS]
    check(not extra, 'nothing else is documented', lambda: (story, extra))
    return where


NAMES = ['a', 'b', 'c', '_p', 'f', 'g']


@bounded('C16', NEW, trials=900)
def hierarchies():
    """Random class hierarchies against Python's own MRO: properties, handlers, rejections, registry, docs, untouched bases."""
    r = rng()
    log_ = []
    root_registry = dict()
    root = make('Root', (properties.HasProperties,), {'_REGISTRY': root_registry, '__doc__': 'The root.'})
    registries = [root_registry]
    classes = [(root, type('TwinRoot', (Twin,), {'_registry': root_registry, '_docs': Mark('docs', False)}), True)]
    story = []
    for i in range(r.randint(1, 6)):
        mixin = r.random() < 0.2
        pool = [c for c in classes if not (mixin and c[2])]
        chosen = r.sample(pool, min(len(pool), r.choice([0, 1, 1, 1, 2, 2, 3])))
        if not mixin and not any(c[2] for c in chosen):
            chosen.append(classes[0])
        whats = ['none', 'value', 'method'] if mixin else \
            ['integer', 'integer', 'string', 'list', 'instance', 'uuid', 'dynamic', 'renamed', 'none', 'none', 'value', 'method',
             'observer', 'observer', 'validator', 'all', 'class']
        marks = {}
        for n in r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 4])):
            marks[n] = new_mark(r, r.choice(whats), (i, n), log_, ['a', 'b', 'c', '_p'])
        names = [c[0].__name__ for c in chosen]
        story.append(('class%d' % i, names, mixin, sorted((n, m.what, m.names if m.names is not properties.everything else '*',
                                                           getattr(m.obj, 'new_name', '')) for n, m in marks.items())))
        note('input', story)
        if mixin:
            body = {n: m.obj for n, m in marks.items()}
            try:
                twin = type('T%d' % i, tuple(c[1] for c in chosen) or (object,), dict(marks))
            except TypeError:
                story.pop()
                continue
            classes.append((type('K%d' % i, tuple(c[0] for c in chosen) or (object,), body), twin, False))
            continue
        twin_body = dict(marks)
        body = {n: m.obj for n, m in marks.items()}
        if r.random() < 0.2:
            registries.append(dict())
            body['_REGISTRY'] = twin_body['_registry'] = registries[-1]
        text = r.choice([None, 'Documentation of class %d.' % i])
        if text:
            body['__doc__'] = text
        private = r.choice([None, None, None, True, False])
        if private is not None:
            body['_doc_private'] = private
        try:
            twin = type('T%d' % i, tuple(c[1] for c in chosen), twin_body)
        except TypeError:
            twin = None
        found = lookup(twin) if twin else {}
        props = {k: m for k, m in found.items() if m.what in PROPS}
        reason = None
        if twin is None:
            reason = TypeError
        else:
            for n, m in marks.items():
                if m.what == 'renamed' and m.obj.new_name not in props:
                    reason = TypeError
                if m.what in ('observer', 'validator') and any(w not in props or props[w].what not in MUTABLE for w in m.names):
                    reason = TypeError
        before = [snapshot_class(c[0]) for c in classes if c[2]]
        regs = [dict(x) for x in registries]
        called = 'K%d' % (i if r.random() < 0.85 else r.randint(0, i))
        try:
            cls = make(called, tuple(c[0] for c in chosen), body)
        except TypeError:
            check(reason is TypeError, 'a valid class can be defined', lambda: story)
            cover('rejected')
            cls = None
        if cls is not None:
            check(reason is None, 'an invalid class is rejected when it is defined', lambda: story)
            cover('defined')
        after = [snapshot_class(c[0]) for c in classes if c[2]]
        check(before == after, 'the base classes stay as they were', lambda: story)
        for x, y in zip(registries, regs):
            mine = cls is not None and x is twin._registry
            check(dict(x) == (dict(y, **{called: cls}) if mine else y), 'the class is registered by name in the nearest registry only', lambda: story)
        if cls is None:
            story.pop()
            continue
        judge(cls, twin, story, log_)
        ours = [c for c in cls.__mro__ if '_doc_private' in vars(c)]
        judge_docs(cls, found, story, private if private is not None else (False if not ours else None))
        if text:
            check(cls.__doc__.startswith(text), 'after its own documentation', lambda: story)
        classes.append((cls, twin, True))
        for c, t, has in classes[1:-1]:
            if has and r.random() < 0.3:
                judge(c, t, story + [('again', c.__name__)], log_)


def orders(n):
    """Every ordered choice of bases among n earlier classes (none means the root)."""
    for k in range(0, n + 1):
        for p in itertools.permutations(range(n), k):
            yield p


@bounded('C16', NEW, trials=1)
def small_hierarchies():
    """Exhaustively: every hierarchy of three classes (and sampled ones of four) over one name, the first optionally a plain mixin."""
    r = rng()
    root = make('Root', (properties.HasProperties,), {'_REGISTRY': dict()})
    count = 0
    quads = [(b2, b3, b4, ks, plain) for b2 in orders(1) for b3 in orders(2) for b4 in orders(3)
             for ks in itertools.product('-p0', repeat=4) for plain in (False, True) if not (plain and ks[0] == 'p')]
    triples = [(b2, b3, None, ks, plain) for b2 in orders(1) for b3 in orders(2)
               for ks in itertools.product('-p0', repeat=3) for plain in (False, True) if not (plain and ks[0] == 'p')]
    for b2, b3, b4, ks, plain in triples + r.sample(quads, 2500):
        made = []
        for i, (bs, k) in enumerate(zip(((), b2, b3) + (() if b4 is None else (b4,)), ks)):
            bases = [made[j] for j in bs]
            mixin = plain and i == 0
            if not mixin and not any(issubclass(c, root) for c, _ in bases):
                bases.append((root, Twin))
            m = Mark('integer', properties.Integer('i%d' % i)) if k == 'p' else Mark('none', None)
            marks = {} if k == '-' else {'x': m}
            try:
                twin = type('T', tuple(t for _, t in bases) or (object,), dict(marks))
            except TypeError:
                twin = None
            try:
                cls = make('K', tuple(c for c, _ in bases) or (object,), {n: v.obj for n, v in marks.items()})
            except TypeError:
                cls = None
            check((cls is None) == (twin is None), 'a class can be defined when Python has an MRO for it', lambda: (b2, b3, b4, ks, plain))
            if cls is None:
                break
            made.append((cls, twin))
            if mixin:
                continue
            want = lookup(twin).get('x')
            want = want.obj if want is not None and want.what == 'integer' else None
            check(cls._props.get('x') is want, 'a class has the property the MRO selects', lambda: (b2, b3, b4, ks, plain, i))
            count += 1
    note('input', count)
    cover('explored')


@bounded('C16', REJ, trials=400)
def documentation_order():
    """_doc_order must list every documented property exactly once and is then the order of the documentation; bad ones are rejected."""
    r = rng()
    registry = dict()
    base = make('Base', (properties.HasProperties,), {'_REGISTRY': registry})
    found, story = {}, []
    for level in range(r.randint(1, 3)):
        body = {}
        for n in r.sample(NAMES, r.randint(0, 3)):
            m = new_mark(r, r.choice(['integer', 'string', 'uuid', 'dynamic', 'none', 'list']), (level, n), [], ['a'])
            body[n] = m.obj
            found[n] = m
        props = [k for k, m in found.items() if m.what in PROPS]
        private = r.choice([True, False])
        body['_doc_private'] = private
        documented = [k for k in props if private or k[0] != '_']
        mode = r.choice(['none', 'good', 'good', 'good', 'missing', 'extra', 'double', 'string', 'privacy', 'number'])
        order = list(documented)
        r.shuffle(order)
        wrong = False
        if mode == 'missing' and order:
            order = order[1:]
            wrong = True
        elif mode == 'extra':
            order = order + ['nothing']
            wrong = True
        elif mode == 'double' and order:
            order = order + [order[0]]
            wrong = True
        elif mode == 'string':
            order = ''.join(order) if len(order) == 0 else 'abc'
            wrong = True
        elif mode == 'number':
            order = r.choice([7, {'a': 1}, {1}])
            wrong = True
        if mode == 'privacy':
            body['_doc_private'] = r.choice([None, 1, 'yes', 0])
            wrong = True
        elif mode != 'none':
            body['_doc_order'] = tuple(order) if isinstance(order, list) and r.random() < 0.5 else order
        story.append((mode, order, sorted(body), private))
        note('input', story)
        before = dict(registry)
        try:
            cls = make('D%d' % level, (base,), body)
        except (AttributeError, TypeError) as e:
            check(type(e) is AttributeError, 'a bad documentation order is an AttributeError', lambda: (story, repr(e)))
            check(wrong, 'a good documentation order is accepted', lambda: (story, repr(e)))
            check(registry == before, 'and the class is not registered', lambda: story)
            cover('rejected')
            return
        check(not wrong, 'a bad documentation order is rejected', lambda: story)
        where = judge_docs(cls, found, story, private)
        if mode == 'good':
            lines = [ln for ln in cls.__doc__.split('\n') if ln.startswith('* **')]
            got = [ln[4:].split('**')[0] for ln in lines]
            for sec in ('Required', 'Optional', 'Other', 'Private'):
                mine = [k for k in got if where[k][0][0] == sec]
                check(mine == [k for k in order if k in mine], 'each section follows the documentation order', lambda: (story, got))
        base = cls
        cover('accepted')


@bounded('C16', REJ + ['properties.handlers:Observer'], trials=300)
def invalid_classes():
    """Renamed to unknown names and observers of unknown or immutable names are rejected, valid ones accepted, at any depth."""
    r = rng()
    registry = dict()
    log_ = []
    base = make('Base', (properties.HasProperties,), {'_REGISTRY': registry})
    marks = {}
    for level in range(r.randint(0, 2)):
        body = {}
        for n in r.sample(['a', 'b', 'c'], r.randint(0, 2)):
            marks[n] = new_mark(r, r.choice(['integer', 'string', 'uuid', 'dynamic', 'none']), (level, n), log_, ['a'])
            body[n] = marks[n].obj
        base = make('B%d' % level, (base,), body)
    body = {}
    for n in r.sample(['a', 'b', 'c'], r.randint(0, 2)):
        marks[n] = new_mark(r, r.choice(['integer', 'uuid', 'dynamic', 'value']), (9, n), log_, ['a'])
        body[n] = marks[n].obj
    props = {k: m for k, m in marks.items() if m.what in PROPS}
    wrong = []
    for k in ['h1', 'h2'][:r.randint(1, 2)]:
        what = r.choice(['renamed', 'observer', 'validator', 'all', 'class'])
        m = new_mark(r, what, k, log_, ['a', 'b', 'c', 'zzz'])
        body[k] = m.obj
        if what == 'renamed' and m.obj.new_name not in props and m.obj.new_name not in [x for x in body if x in ('h1', 'h2')
                                                                                         and isinstance(body[x], Renamed)]:
            wrong.append((k, m.obj.new_name))
        if what in ('observer', 'validator') and any(x not in props or props[x].what not in MUTABLE for x in m.names):
            wrong.append((k, m.names))
    note('input', (sorted((k, m.what) for k, m in marks.items()), sorted(body), wrong))
    before = dict(registry)
    try:
        cls = make('Final', (base,), body)
    except TypeError as e:
        check(bool(wrong), 'a valid class is accepted', lambda: (repr(e), sorted(body)))
        check(registry == before, 'a rejected class is not registered')
        cover('rejected')
        return
    check(not wrong, 'an invalid class is rejected when defined', lambda: (wrong, sorted((k, m.what) for k, m in marks.items())))
    check(registry.get('Final') is cls, 'and registered')
    cover('accepted')


# ---------------------------------------------------------------- the dictionaries of a class, for any bases
BUILD = ['properties.base.base:build_from_bases']


class PlainBase(object):
    """A class in the MRO, with any names in its body."""

    @property
    def __class__(self):
        return type

    @property
    def __dict__(self):
        return self.body

    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


class PropertyBase(PlainBase):
    """A HasProperties class in the MRO, with any properties."""

    @property
    def __class__(self):
        return properties.base.base.PropertyMetaclass


def selected(mro, classdict, own, key):
    """What the MRO selects: (is it a property, which)."""
    want, has = None, False
    for base in reversed(mro):
        if key in base.body:
            has = isinstance(base, PropertyBase) and key in base._props
            want = base._props[key] if has else None
    if key in classdict:
        has, want = False, None
    if key in own:
        has, want = True, own[key]
    return has, want


def any_base(i, names, special):
    if not special:
        return new_instance(PlainBase, body=mkdict('body%d' % i, lambda k: uf_value('body', i, k), names))
    items = mkdict('items%d' % i, lambda k: uf_value('items', i, k), names)
    body = mkdict('body%d' % i, lambda k: items if k == '_props' else uf_value('body', i, k), names + ['_props'])
    assume('_props' in body)
    return new_instance(PropertyBase, body=body, _props=items)


def judge_name(mro, classdict, own, key):
    assume(hasattr(properties.base.base, 'merge_mros'))
    stand_in(properties.base.base.merge_mros, lambda bases: list(mro))
    result = properties.base.base.build_from_bases(
        bases=('bases',), classdict=classdict, attr='_props', attr_dict=own)
    has, want = selected(mro, classdict, own, key)
    check((key in result) == has, 'the name is there exactly when it should be')
    if has:
        check(same(result[key], want), 'with what the MRO selects')


NAMED = ['a', 'b', 'c']


@contract('C16', BUILD, trials=600, bound='at most one ancestor (any number of names)')
def body_over_ancestor():
    """For every name: what the body gives it, else what the ancestor that defines the name gives it, if a property."""
    kinds = choose('classes in the MRO', [(), (False,), (True,)])
    mro = [any_base(i, NAMED, special) for i, special in enumerate(kinds)]
    classdict = mkdict('classdict', lambda k: uf_value('class', k), NAMED)
    own = mkdict('own', lambda k: uf_value('own', k), NAMED)
    judge_name(mro, classdict, own, any_name('name', NAMED))


@contract('C16', BUILD, trials=900, bound='two ancestors (any number of names)', slow=True)
def nearest_definition():
    """For every name the nearest ancestor defines: that ancestor decides, whatever the other one has."""
    mro = [any_base(0, NAMED, True), any_base(1, NAMED, choose('far', [False, True]))]
    key = any_name('name', NAMED)
    assume(key in mro[0].body)
    judge_name(mro, {}, {}, key)


@contract('C16', BUILD, trials=900, bound='two ancestors (any number of names)', slow=True)
def farther_definition():
    """For every name the nearest ancestor does not define: the other one decides."""
    mro = [any_base(0, NAMED, True), any_base(1, NAMED, choose('far', [False, True]))]
    key = any_name('name', NAMED)
    assume(key not in mro[0].body)
    judge_name(mro, {}, {}, key)


@contract('C16', BUILD, trials=600, bound='two ancestors (any number of names)')
def mixin_over_ancestor():
    """For every name: a plain class in front of the ancestor removes the properties it overrides, and no others."""
    mro = [any_base(0, NAMED, False), any_base(1, NAMED, choose('far', [False, True]))]
    judge_name(mro, {}, {}, any_name('name', NAMED))
