"""C15: every new instance starts from valid, fresh defaults; reset assigns them again."""
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

NEW = ['properties.base.base:PropertyMetaclass.__call__', 'properties.base.base:HasProperties._reset',
       'properties.basic:GettableProperty.default']
NAMES = ['x', 'y', 'z', 'w']


class Factory(object):
    """A callable default."""

    def __call__(self):
        log('make', self)
        if uf_rare('factory fails', self):
            raise uf_exc('factory error', self)
        return uf_value('made', self)


class DefProp(AssignProp):
    """A property with any default, assigned by contract."""

    @property
    def default(self):
        k = self.name
        if uf_bool('callable default', k):
            return abstract(Factory, 'prop factory', (k,))
        return uf_data('default', k)


class FixedProp(properties.GettableProperty):
    """An immutable property with any default."""

    def validate(self, instance, value):
        log('validate', self.name, value)
        if uf_rare('rejects', self.name, value):
            raise uf_exc('rejection', self.name, value)
        return uf_value('validated', self.name, value)

    @property
    def default(self):
        k = self.name
        if uf_bool('callable default', k):
            return abstract(Factory, 'prop factory', (k,))
        return uf_data('default', k)

    def sphinx(self):
        return 'an abstract property'


def def_prop(key):
    return abstract(DefProp, 'prop', (key,), prop_fields)


def fixed_prop(key):
    return abstract(FixedProp, 'fixed', (key,), lambda k: {'_name': k, '_doc': 'fixed', '_meta': {}})


def class_default(key):
    if uf_bool('callable class default', key):
        return abstract(Factory, 'class factory', (key,))
    return uf_data('class default', key)


def default_of(name, props, defaults):
    return defaults[name] if name in defaults else props[name].default


def expect_reset(events, name, props, defaults):
    """Append what resetting that property does; the error, if any."""
    d = default_of(name, props, defaults)
    if callable(d):
        events.append(('make', d))
        if uf_rare('factory fails', d):
            return uf_exc('factory error', d)
        v = uf_value('made', d)
    else:
        v = d
    events.append(('assign', name, v))
    if uf_rare('assignment fails', props[name], v):
        return uf_exc('assignment error', props[name], v)
    return None


@contract('C15', NEW, trials=800)
def reset_one():
    """Resetting one property by name, of any class."""
    props = mkdict('props', def_prop, NAMES)
    defaults = mkdict('class defaults', class_default, NAMES)
    cls = abs_class(Owner, props, _defaults=defaults)
    inst = new_instance(cls, _backend={}, _listeners={})
    name = any_name('name', NAMES)
    events = []
    known = name in props
    want = expect_reset(events, name, props, defaults) if known else None
    clear_trace()
    err = None
    try:
        inst._reset(name)
    except Exception as e:
        err = e
    check(same_seq(trace(), events), 'the default is made once and assigned once, through normal assignment')
    if known:
        check(err is want, 'and errors of that propagate')
    else:
        check(isinstance(err, AttributeError), 'an unknown name is an AttributeError')
    check(len(inst._backend) == 0, 'nothing else is stored')


@contract('C15', NEW, trials=300)
def reset_immutable():
    """Resetting an immutable property is rejected."""
    props = mkdict('props', fixed_prop, NAMES)
    cls = abs_class(Owner, props, _defaults={})
    inst = new_instance(cls, _backend={}, _listeners={})
    name = any_name('name', NAMES)
    clear_trace()
    try:
        inst._reset(name)
        fail('it is rejected')
    except AttributeError:
        pass
    check(same_seq(trace(), []), 'and does nothing')
    inst._reset()
    check(same_seq(trace(), []), 'resetting everything leaves immutable properties alone')
    check(len(inst._backend) == 0, 'nothing is stored')


class ResetOwner(Owner):
    """Resetting one property, by contract."""

    def _reset(self, name=None):
        if name is None:
            super(ResetOwner, self)._reset()
            return
        log('reset', name)
        if uf_rare('reset fails', name):
            raise uf_exc('reset error', name)


@contract('C15', NEW, trials=600)
def reset_all():
    """Resetting without a name resets every mutable property, of any class."""
    props = mkdict('props', def_prop, NAMES)
    inst = new_instance(abs_class(ResetOwner, props), _backend={}, _listeners={})
    events = []
    want = None
    for name in props:
        events.append(('reset', name))
        if uf_rare('reset fails', name):
            want = uf_exc('reset error', name)
            break
    clear_trace()
    err = None
    try:
        inst._reset()
    except Exception as e:
        err = e
    check(same_seq(trace(), events), 'every property is reset once')
    check(err is want, 'and errors propagate')


class Starter(Owner):
    """Records what happens before __init__ is called."""

    def _reset(self, name=None):
        log('reset', name, all(t in properties.listeners_disabled._quarantine for t in LISTENERS))

    def __init__(self, *args, **kwargs):
        log('init', len(args), kwargs.get('a', 'absent'))
        log('listeners off', all(t in properties.listeners_disabled._quarantine for t in LISTENERS))


LISTENERS = ('validate', 'observe_set', 'observe_change')


def fixed_default(kind, name):
    """The default of that property, and where it is from."""
    if kind == 'factory':
        return abstract(Factory, 'prop factory', (name,))
    return uf_data('default', name)


class FactoryProp(FixedProp):
    default = property(lambda self: fixed_default('factory', self.name))


class ValueProp(FixedProp):
    default = property(lambda self: fixed_default('value', self.name))


def factory_prop(key):
    return abstract(FactoryProp, 'fixed', (key,), lambda k: {'_name': k, '_doc': 'fixed', '_meta': {}})


def value_prop(key):
    return abstract(ValueProp, 'fixed', (key,), lambda k: {'_name': k, '_doc': 'fixed', '_meta': {}})


def new_fixed(props, defaults):
    cls = abs_class(Starter, props, _defaults=defaults, _prop_observers={})
    events = []
    want = None
    values = {}
    for name in props:
        d = default_of(name, props, defaults)
        if d is undefined:
            continue
        if callable(d):
            events.append(('make', d))
            if uf_rare('factory fails', d):
                want = uf_exc('factory error', d)
                break
            v = uf_value('made', d)
        else:
            v = d
        events.append(('validate', name, v))
        if uf_rare('rejects', name, v):
            want = uf_exc('rejection', name, v)
            break
        values[name] = uf_value('validated', name, v)
    clear_trace()
    err = inst = None
    try:
        inst = cls(a=1)
    except Exception as e:
        err = e
    check(err is want, 'errors propagate')
    check(len(properties.listeners_disabled._quarantine) == 0, 'the listeners are enabled again')
    if err is None:
        check(same_seq(trace(), events + [('reset', None, True), ('init', 0, 1), ('listeners off', False)]),
              'each default is made once and validated once, the others are reset without listeners, then __init__ is called')
        check(same_dict(inst._backend, values), 'and stored')
    else:
        check(same_seq(trace(), events), 'nothing more is done')


@contract('C15', NEW, trials=500, slow=True)
def new_with_values():
    """A new instance of any class with immutable properties that have default values."""
    new_fixed(mkdict('props', value_prop, NAMES), {})


@contract('C15', NEW, trials=500, slow=True)
def new_with_factories():
    """With callables as defaults."""
    new_fixed(mkdict('props', factory_prop, NAMES), {})


@contract('C15', NEW, trials=500, slow=True)
def new_with_class_defaults():
    """With defaults of the class for some properties."""
    new_fixed(mkdict('props', factory_prop, NAMES), mkdict('class defaults', lambda k: uf_data('class default', k), NAMES))


# ---------------------------------------------------------------- the default of a property
class LoudProp(AbsProp):
    """Validation by contract, recorded."""

    def validate(self, instance, value):
        log('validate', instance, value)
        if uf_rare('rejects', value):
            raise uf_exc('rejection', value)
        return uf_value('validated', value)


@contract('C15', ['properties.basic:GettableProperty.default'], trials=500)
def giving_a_default():
    """A default is accepted exactly if it (or what it makes) validates; it is kept as given."""
    p = abstract(LoudProp, 'prop', (), lambda: prop_fields('p'))
    check(p.default is undefined, 'no default at first')
    kind = choose('kind', ['value', 'factory', 'undefined'])
    d = {'value': uf_data('given', 0), 'factory': abstract(Factory, 'factory', ()), 'undefined': undefined}[kind]
    if kind == 'value':
        assume(d is not undefined)
    clear_trace()
    err = None
    try:
        p.default = d
    except Exception as e:
        err = e
    events = []
    want = None
    v = d
    if kind == 'factory':
        events.append(('make', d))
        v = uf_value('made', d)
        if uf_rare('factory fails', d):
            want = uf_exc('factory error', d)
    if kind != 'undefined' and want is None:
        events.append(('validate', None, v))
        if uf_rare('rejects', v):
            want = uf_exc('rejection', v)
    check(err is want, 'an invalid default is rejected')
    check(same_seq(trace(), events), 'after validating it once')
    check(same(p.default, d if want is None else undefined), 'the default is what was given, if it is valid')


class DefaultingProp(AbsProp):
    default = property(lambda self: uf_data('default', self))


@contract('C15', ['properties.base.union:Union.default'], trials=400)
def default_of_a_union():
    """Its own default, or the first one any of its props has."""
    u = properties.Union('doc', [properties.Property('first')])
    props = mkseq('props', lambda i: abstract(DefaultingProp, 'prop', (i,), lambda i: prop_fields('p')))
    u._props = props
    own = undefined
    if any_bool('own default'):
        own = uf_data('own', 0)
        u._default = own
    want = own
    if want is undefined:
        for p in props:
            if uf_data('default', p) is not undefined:
                want = uf_data('default', p)
                break
    check(same(u.default, want), 'its own default, or the first of its props')


# ---------------------------------------------------------------- real classes
class Part(properties.HasProperties):
    _REGISTRY = dict()
    n = properties.Integer('n', default=1)


CALLS = []


def made(tag, value):
    """A callable default that makes equal values and counts."""
    def make():
        CALLS.append(tag)
        return value() if callable(value) else value
    return make


def some_default(r, kind, tag):
    """(default, the value read, does reading give a fresh object?, is it callable)."""
    if kind == 'integer':
        v = r.choice([0, 3, 7.0])
    elif kind == 'string':
        v = r.choice(['', 'abc'])
    elif kind == 'list':
        v = r.choice([[], [1, 2], [3.0]])
    elif kind == 'dict':
        v = r.choice([{}, {'a': 1}])
    elif kind == 'instance':
        return r.choice([(Part, ('part', 1), True), (made(tag, Part), ('part', 1), True)])
    elif kind == 'union':
        v = r.choice([5, 'text'])
    else:
        v = r.choice([True, False])
    want = [int(i) for i in v] if isinstance(v, list) else int(v) if isinstance(v, float) else v
    if r.random() < 0.4:
        return made(tag, lambda: v), want, False
    return v, want, False


def new_prop(r, kind, **kw):
    return {'integer': lambda: properties.Integer('i', **kw), 'string': lambda: properties.String('s', **kw),
            'list': lambda: properties.List('l', properties.Integer('i'), **kw),
            'dict': lambda: properties.Dictionary('d', key_prop=properties.String('k'), value_prop=properties.Integer('i'), **kw),
            'instance': lambda: properties.Instance('p', Part, **kw),
            'union': lambda: properties.Union('u', [properties.Integer('i'), properties.String('s')], **kw),
            'boolean': lambda: properties.Boolean('b', **kw)}[kind]()


BUILTIN = {}
KINDS = ['integer', 'string', 'list', 'dict', 'instance', 'union', 'boolean']


def plain(v):
    if isinstance(v, Part):
        return 'part', v.n
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    return v




@bounded('C15', NEW, trials=1200)
def real_instances():
    """Random classes with inherited, class-level and property-level defaults: construction, listeners, freshness, reset."""
    r = rng()
    registry = dict()
    heard = []
    want, dyn_tags = {}, {}
    levels = r.randint(1, 3)
    base = properties.HasProperties
    kinds = {}
    story = []
    for level in range(levels):
        body = {'_REGISTRY': registry}
        for n in r.sample(['p', 'q', 's', 't', 'v'], r.randint(0, 3)):
            kind = r.choice(KINDS)
            if n in kinds and kinds[n] != kind and n in want.get('_class', {}):
                continue
            kw = {}
            own = None
            if r.random() < 0.6:
                d, w, _ = some_default(r, kind, (level, n))
                kw['default'] = d
                own = (w, callable(d) and d is not Part and (level, n))
            kinds[n] = kind
            body[n] = new_prop(r, kind, required=r.random() < 0.5, **kw)
            if own is None:
                own = (BUILTIN[kind], None) if kind in BUILTIN else None
            want[n] = own
            story.append((level, n, kind, repr(kw)))
        classwide = {}
        for n in list(kinds):
            if r.random() < 0.3:
                d, w, _ = some_default(r, kinds[n], (level, n, 'class'))
                if r.random() < 0.12:
                    d, w = undefined, None
                classwide[n] = d
                want.setdefault('_class', {})[n] = None if d is undefined else (w, callable(d) and d is not Part and (level, n, 'class'))
                story.append((level, n, 'class', repr(d)))
        if classwide:
            body['_defaults'] = classwide
        if level == 0:
            @properties.observer(properties.everything)
            def seen(self, change):
                heard.append((change['name'], change['mode'], plain(change['value'])))

            @properties.validator(list(k for k in kinds) or 'none_such')
            def checked(self, change):
                heard.append((change['name'], change['mode'], plain(change['value'])))
            if kinds:
                body['seen'], body['checked'] = seen, checked
        base = type(properties.HasProperties)('Made%d' % level, (base,), body)
    note('class', story)
    final = {}
    for n in kinds:
        final[n] = want['_class'][n] if n in want.get('_class', {}) else want[n]
    n_instances = r.randint(1, 3)
    made_ = []
    del CALLS[:]
    for i in range(n_instances):
        before = len(CALLS)
        del heard[:]
        x = base()
        check(heard == [], 'no listener is called by construction', heard)
        for n, f in final.items():
            v = getattr(x, n)
            if f is None:
                check(v is None and n not in x._backend, 'no default reads as None', (n, v))
            else:
                check(plain(v) == f[0] and type(plain(v)) is type(f[0]), 'the default value', (n, v, f))
                if f[1]:
                    check(CALLS[before:].count(f[1]) == 1, 'callables are called once for each instance', (n, CALLS[before:]))
                for other in made_:
                    if isinstance(v, (list, dict, Part)):
                        check(v is not getattr(other, n), 'values made for different instances are different objects', n)
        made_.append(x)
    expected_calls = sorted(repr(f[1]) for f in final.values() if f and f[1]) * n_instances
    check(sorted(map(repr, CALLS)) == sorted(expected_calls), 'no other default is made', (CALLS, expected_calls))
    x = made_[0]
    # mutating one instance does not affect later ones
    for n, f in final.items():
        if f and isinstance(f[0], list):
            getattr(x, n).append(9)
        elif f and isinstance(f[0], dict):
            getattr(x, n)['zz'] = 9
        elif f and isinstance(f[0], tuple):
            getattr(x, n).n = 9
    y = base()
    for n, f in final.items():
        check(plain(getattr(y, n)) == (f[0] if f else None), 'defaults are not changed by instances', n)
    # reset
    names = list(final)
    if not names:
        return
    which = r.choice(names + [None, 'unknown', 'seen'])
    note('class', (story, 'reset', which))
    before = {n: plain(getattr(x, n)) for n in names}
    del heard[:]
    try:
        x._reset(which) if which is not None or r.random() < 0.5 else x._reset()
        check(which is None or which in final, 'unknown names are rejected')
    except AttributeError:
        check(which in ('unknown', 'seen'), 'known names are not rejected')
        check({n: plain(getattr(x, n)) for n in names} == before, 'nothing is changed')
        return
    for n, f in final.items():
        if which in (None, n):
            check(plain(getattr(x, n)) == (f[0] if f else None), 'reset assigns the default', (n, getattr(x, n)))
            modes = [h[1] for h in heard if h[0] == n]
            check(modes.count('observe_set') == (1 if n in first_names(base) else 0), 'and notifies', (n, heard))
            if f:
                check(all(h[2] == f[0] for h in heard if h[0] == n), 'with that value', heard)
        else:
            check(plain(getattr(x, n)) == before[n], 'others are unchanged', n)
            check(not [h for h in heard if h[0] == n], 'nor notified')


def first_names(cls):
    """The names observed by the everything observer: all properties, if it exists."""
    return set(cls._props) if getattr(cls, 'seen', None) else set()


@bounded('C15', NEW + ['properties.base.base:PropertyMetaclass.__new__'], trials=800)
def bad_defaults():
    """Invalid and unknown defaults are rejected when the class or the property is made."""
    r = rng()
    kind = r.choice(KINDS + ['fixed'])
    wrong = {'integer': ['x', 1.5, [1]], 'string': [5, ['a']], 'list': [5, 'x', ['a']], 'dict': [5, {'a': 'x'}, {1: 1}],
             'instance': [5, 'x'], 'union': [[1], 2.5], 'boolean': ['yes', 2], 'fixed': ['x']}[kind]
    right = {'integer': [1], 'string': ['a'], 'list': [[1]], 'dict': [{'a': 1}], 'instance': [Part], 'union': [1, 'a'],
             'boolean': [True], 'fixed': [4]}[kind]
    ok = r.random() < 0.3
    v = r.choice(right if ok else wrong)
    d = v
    if r.random() < 0.4 and not callable(v):
        d = lambda: v       # noqa
    note('input', (kind, v, callable(d)))

    def prop(**kw):
        return new_prop(r, kind, **kw) if kind != 'fixed' else Fixed('f', **kw)
    none = not ok and r.random() < 0.2
    try:
        prop(default=d)
        check(ok, 'a property rejects an invalid default')
    except (ValueError, TypeError, AttributeError):
        check(not ok, 'a property accepts a valid default')
    where = r.choice(['own', 'inherited', 'unknown', 'method', 'shadowed'])
    expect = ok and where in ('own', 'inherited')
    if none:
        d = r.choice([None, lambda: None])      # no value of any of these kinds
        note('class-level default', (callable(d), where))
    registry = dict()
    try:
        if where == 'own':
            make(registry, 'A', (), p=prop(), _defaults={'p': d})
        elif where == 'inherited':
            make(registry, 'B', (make(registry, 'A', (), p=prop()),), _defaults={'p': d})
        elif where == 'unknown':
            make(registry, 'A', (), p=prop(), _defaults={'q': d})
        elif where == 'method':
            make(registry, 'A', (), p=prop(), q=5, _defaults={'q': d})
        else:
            make(registry, 'B', (make(registry, 'A', (), p=prop(), _defaults={'p': right[0]}),), p=5)
        check(expect, 'an invalid default is rejected when the class is made', where)
    except AttributeError:
        check(not expect, 'valid defaults are accepted', where)
    except ValueError:
        check(False, 'with an AttributeError')


class Fixed(properties.GettableProperty):
    """Immutable, of positive integers."""

    def validate(self, instance, value):
        if not isinstance(value, int) or value <= 0:
            self.error(instance, value)
        return value


def make(registry, name, bases, **body):
    return type(properties.HasProperties)(name, bases or (properties.HasProperties,), dict(body, _REGISTRY=registry))


@bounded('C15', NEW, trials=400)
def immutable_properties():
    """Immutable properties have their default from construction on and cannot be reset or assigned."""
    r = rng()
    registry = dict()
    n = r.randint(1, 9)
    calls = []

    def count():
        calls.append(1)
        return n
    how = r.choice(['value', 'callable', 'class', 'class callable', 'none', 'bad later'])
    note('how', how)
    kw = {'value': {'default': n}, 'callable': {'default': count}}.get(how, {})
    body = {'f': Fixed('f', **kw), 'i': properties.Integer('i', default=2)}
    if how.startswith('class'):
        body['_defaults'] = {'f': n if how == 'class' else count}
    state = [n]
    if how == 'bad later':
        body['f'] = Fixed('f', default=lambda: state[0])
    cls = make(registry, 'A', (), **body)
    if how == 'bad later':
        state[0] = -1
        try:
            cls()
            check(False, 'an invalid default is rejected by construction')
        except ValueError:
            pass
        return
    del calls[:]
    x, y = cls(), cls(i=3)
    check(len(calls) == (2 if 'callable' in how else 0), 'made once for each instance')
    want = None if how == 'none' else n
    for obj in (x, y):
        check(obj.f == want and ('f' in obj._backend) == (want is not None), 'the default')
        for bad in (lambda: setattr(obj, 'f', 3), lambda: delattr(obj, 'f'), lambda: obj._reset('f')):
            try:
                bad()
                check(False, 'it is immutable')
            except AttributeError:
                pass
        obj.i = 8
        obj._reset()
        check(obj.f == want and obj.i == 2, 'resetting everything resets the mutable ones only')
    check(len(calls) == (2 if 'callable' in how else 0), 'resetting makes no immutable default')
