"""C26: property arguments are checked; filter_props splits dictionaries exactly."""
import math
import properties
import properties.extras
from properties import undefined, handlers
from properties.basic import GettableProperty, DynamicProperty
from contracts.stubs import *    # noqa
from contracts.c15 import FixedProp, Factory
from pyvc.api import *           # noqa

ARGS = ['properties.basic:GettableProperty.__init__', 'properties.basic:GettableProperty.name', 'properties.basic:GettableProperty.doc',
        'properties.basic:GettableProperty.serializer', 'properties.basic:GettableProperty.deserializer',
        'properties.basic:Property.required', 'properties.basic:Boolean.cast', 'properties.basic:GettableProperty.default']
LENGTHS = ['properties.base.containers:Tuple.min_length', 'properties.base.containers:Tuple.max_length']
FILTER = ['properties.utils:filter_props']
TAG = ['properties.basic:GettableProperty.tag']
OBS = ['properties.handlers:Observer', 'properties.handlers:observer', 'properties.handlers:validator']
NAMES = ['x', 'y', 'z', 'w']


# ---------------------------------------------------------------- keywords of any property class
class KeyProp(properties.Property):
    """Two attributes that may refuse their value, one that cannot be set, and one plain one."""

    plain = 'unset'

    @property
    def first(self):
        return getattr(self, '_first', 'unset')

    @first.setter
    def first(self, value):
        log('first', value)
        if uf_rare('first refuses', value):
            raise uf_exc('refusal', value)
        self._first = value

    @property
    def second(self):
        return getattr(self, '_second', 'unset')

    @second.setter
    def second(self, value):
        log('second', value)
        if uf_rare('second refuses', value):
            raise TypeError('second')
        self._second = value

    @property
    def computed(self):
        return 'computed'

    def validate(self, instance, value):
        log('validate', instance, value, self.first)
        if uf_rare('default refused', value):
            raise uf_exc('rejection', value)
        return uf_value('validated', value)


@contract('C26', ARGS, trials=1500, slow=True)
def keywords():
    """Every keyword is applied as that attribute, in order, the default last; what cannot be is an AttributeError."""
    kinds = ['first', 'second', 'plain', 'computed', 'nonsense', '_private', '_first', 'terms']
    names = []
    for i in range(choose('how many', [0, 1, 2])):
        n = choose('keyword %d' % i, kinds)
        if n not in names:
            names.append(n)
    kw = {}
    for n in names:
        kw[n] = uf_data('value of', n)
    default = any_bool('default')
    d = uf_data('default', 0)
    if default:
        assume(d is not undefined and d is not None)
        kw['default'] = d
    events = []
    want, refused = None, ''
    seen_first = 'unset'
    for n in names:
        v = kw[n]
        if n == 'first':
            events.append(('first', v))
            if uf_rare('first refuses', v):
                want, refused = uf_exc('refusal', v), 'exactly'
                break
            seen_first = v
        elif n == 'second':
            events.append(('second', v))
            if uf_rare('second refuses', v):
                refused = 'type'
                break
        elif n != 'plain':
            refused = 'attribute'
            break
    if refused == '' and default:
        events.append(('validate', None, d, seen_first))
        if uf_rare('default refused', d):
            want, refused = uf_exc('rejection', d), 'exactly'
    before = dict(kw)
    clear_trace()
    err = p = None
    try:
        p = KeyProp('the doc', **kw)
    except Exception as e:
        err = e
    check(same_seq(trace(), events), 'keywords are applied in order, the default last')
    if refused == 'attribute':
        check(isinstance(err, AttributeError), 'private, unknown and constant keywords are AttributeErrors')
    elif refused == 'type':
        check(isinstance(err, TypeError), 'errors of a setter propagate')
    elif refused == 'exactly':
        check(err is want or isinstance(want, AttributeError) and isinstance(err, AttributeError), 'errors of a setter propagate')
    else:
        check(err is None, 'valid keywords are accepted')
        check(p.doc == 'the doc' and len(p.meta) == 0 and p.name == '', 'the doc is kept, and nothing else is set')
        check(same(p.first, kw.get('first', 'unset')) and same(p.second, kw.get('second', 'unset')) and
              same(p.plain, kw.get('plain', 'unset')), 'each attribute is as given')
        check(same(p.default, d if default else undefined), 'the default is as given')


# ---------------------------------------------------------------- wrong types
def flags():
    return [(properties.Property('p'), 'required'), (properties.Integer('p'), 'required'), (properties.Boolean('p'), 'cast'),
            (properties.Integer('p'), 'cast'), (properties.Float('p'), 'cast'), (properties.Complex('p'), 'cast'),
            (properties.String('p'), 'unicode'), (properties.StringChoice('p', ['a']), 'case_sensitive'),
            (properties.Tuple('p'), 'coerce'), (properties.List('p'), 'coerce'), (properties.Set('p'), 'coerce'),
            (properties.List('p'), 'observe_mutations'), (properties.Set('p'), 'observe_mutations'),
            (properties.Dictionary('p'), 'observe_mutations'), (properties.Dictionary('p'), 'coerce'),
            (properties.Union('p', [properties.Property('q')]), 'strict_instances'), (properties.Renamed('q'), 'warn'),
            (properties.Array('p'), 'coerce')]


@contract('C26', ARGS, trials=1500)
def flags_are_booleans():
    """Flags accept booleans only."""
    p, name = choose('flag', flags())
    before = getattr(p, name)
    v = any_value('value')
    try:
        setattr(p, name, v)
    except TypeError:
        check(not isinstance(v, bool), 'booleans are accepted')
        check(same(getattr(p, name), before), 'a refused value changes nothing')
        return
    check(isinstance(v, bool), 'anything else is a TypeError')
    check(same(getattr(p, name), v), 'the flag is set')


@contract('C26', ARGS, trials=600)
def text_and_callables():
    """Names, docs and filenames are text; serializers are callable."""
    p, name = choose('what', [(properties.Property('p'), 'name'), (properties.Property('p'), 'doc'),
                              (properties.Integer('p'), 'name'), (properties.Renamed('p'), 'new_name'),
                              (properties.Property('p'), 'serializer'), (properties.Property('p'), 'deserializer')])
    v = choose('value', [any_str('text'), any_int('number'), None, undefined, abstract(Factory, 'callable', ()), [1], 1.5, b'bytes'])
    text = name in ('name', 'doc', 'new_name')
    ok = isinstance(v, str) if text else callable(v)
    before = getattr(p, name)
    try:
        setattr(p, name, v)
    except TypeError:
        check(not ok, 'what has the right type is accepted')
        check(same(getattr(p, name), before), 'a refused value changes nothing')
        return
    check(ok, 'anything else is a TypeError')
    if text:
        check(same(getattr(p, name), v), 'the attribute is set')


@contract('C26', LENGTHS, trials=1500, slow=True)
def lengths():
    """Length bounds are integers >= 0 and never cross, whatever is assigned in whatever order."""
    p = choose('class', [properties.Tuple('p'), properties.List('p'), properties.Set('p')])
    for i in range(2):
        which = choose('bound %d' % i, ['min_length', 'max_length'])
        v = choose('value %d' % i, [any_int('n%d' % i), any_value('v%d' % i)])
        old_min, old_max = p.min_length, p.max_length
        try:
            setattr(p, which, v)
        except TypeError:
            good = isinstance(v, int) and v >= 0
            if good:
                if which == 'min_length':
                    check(old_max is not None and v > old_max, 'only lengths that cross are refused')
                else:
                    check(old_min is not None and v < old_min, 'only lengths that cross are refused')
            check(same(p.min_length, old_min) and same(p.max_length, old_max), 'a refused length changes nothing')
        else:
            check(isinstance(v, int) and v >= 0, 'lengths are integers >= 0')
            check(same(p.min_length, v if which == 'min_length' else old_min), 'min_length is what was assigned')
            check(same(p.max_length, v if which == 'max_length' else old_max), 'max_length is what was assigned')
        if p.min_length is not None and p.max_length is not None:
            check(p.min_length <= p.max_length, 'min_length never exceeds max_length')


@contract('C26', ['properties.basic:Integer.min', 'properties.basic:Integer.max'], trials=1500)
def bounds():
    """The range of a number is never empty, whatever is assigned in whatever order."""
    p = choose('class', [properties.Integer('p'), properties.Float('p')])
    for i in range(2):
        which = choose('bound %d' % i, ['min', 'max'])
        v = choose('value %d' % i, [any_int('n%d' % i), any_float('f%d' % i), None])
        old_min, old_max = p.min, p.max
        try:
            setattr(p, which, v)
        except TypeError:
            if which == 'min':
                check(v is not None and old_max is not None and v > old_max, 'only bounds that cross are refused')
            else:
                check(v is not None and old_min is not None and v < old_min, 'only bounds that cross are refused')
            check(same(p.min, old_min) and same(p.max, old_max), 'a refused bound changes nothing')
        else:
            check(same(p.min, v if which == 'min' else old_min), 'min is what was assigned')
            check(same(p.max, v if which == 'max' else old_max), 'max is what was assigned')
        if p.min is not None and p.max is not None:
            check(not p.min > p.max, 'min never exceeds max')


# ---------------------------------------------------------------- tags
@contract('C26', TAG, trials=600)
def tagging():
    """tag updates the meta dictionary of that property only."""
    p, q = properties.Property('p'), properties.Property('q')
    old = mkdict('old tags', lambda k: uf_value('old', k), NAMES)
    p._meta = dict(old)
    new = mkdict('new tags', lambda k: uf_value('new', k), NAMES)
    saved = snapshot(new)
    kw = {'x': uf_value('keyword', 0)} if any_bool('keyword') else {}
    how = choose('how', ['dictionary', 'keywords', 'two', 'list', 'text'])
    args = {'dictionary': (new,), 'keywords': (), 'two': (new, new), 'list': ([new],), 'text': ('tag',)}[how]
    try:
        r = p.tag(*args, **kw)
    except TypeError:
        check(how in ('two', 'list', 'text'), 'a dictionary is accepted')
        check(same_dict(p.meta, old), 'nothing is tagged')
        return
    check(how in ('dictionary', 'keywords'), 'only a dictionary is')
    check(r is p, 'the property is returned')
    k = any_name('tag', NAMES)
    if k in kw:
        check(same(p.meta[k], kw[k]), 'keywords are tagged')
    elif how == 'dictionary' and k in saved:
        check(same(p.meta.get(k), uf_value('new', k)), 'the given tags are set')
    else:
        check((k in p.meta) == (k in old), 'no other tag appears or disappears')
        if k in old:
            check(same(p.meta.get(k), uf_value('old', k)), 'other tags are kept')
    check(len(q.meta) == 0, 'other properties are not tagged')
    check(same_dict(new, saved), 'the given dictionary is not modified')


# ---------------------------------------------------------------- handlers
@contract('C26', OBS, trials=900)
def handler_names():
    """Handlers are for names, given as text or a collection of texts, or everything."""
    one = choose('name', [any_str('text'), any_int('number'), None, abstract(Factory, 'object', ()), properties.everything, undefined])
    two = choose('other', [any_str('text2'), any_int('number2'), None])
    form = choose('form', ['single', 'list', 'tuple', 'set', 'empty'])
    kind = choose('kind', ['observer', 'validator'])
    if form == 'set':
        one, two = choose('set name', ['x', 5, None]), 'y'
    names = {'single': one, 'list': [one, two], 'tuple': (one, two), 'empty': []}.get(form)
    if form == 'set':
        names = {one, two}
    if form == 'empty':
        ok = True
    elif form == 'single':
        ok = isinstance(one, str) or one is properties.everything
    else:
        ok = isinstance(one, str) and isinstance(two, str)
    if form == 'single' and (one is None or kind == 'validator' and callable(one)):
        return
    try:
        h = properties.observer(names) if kind == 'observer' else properties.validator(names)
    except TypeError:
        check(not ok, 'names are accepted')
        return
    check(ok, 'anything else is a TypeError')
    check(h.mode == ('observe_set' if kind == 'observer' else 'validate'), 'the mode')
    if form == 'single':
        check(h.names is properties.everything if one is properties.everything else h.names == (one,), 'the names')
    elif form in ('list', 'tuple'):
        check(h.names == (one, two), 'the names')
    elif form == 'set':
        check(set(h.names) == {one, two}, 'the names')


@contract('C26', OBS, trials=500)
def handler_modes():
    """Only the three modes exist."""
    mode = choose('mode', [any_str('text'), 'validate', 'observe_set', 'observe_change', any_int('number'), None])
    ok = mode in ('validate', 'observe_set', 'observe_change')
    try:
        h = handlers.Observer('x', mode)
        check(ok, 'other modes are refused')
        check(h.mode == mode and h.names == ('x',), 'as given')
    except TypeError:
        check(not ok, 'the modes are accepted')
    only = any_bool('change only')
    check(properties.observer('x', change_only=only).mode == ('observe_change' if only else 'observe_set'),
          'change_only selects the mode of an observer')


# ---------------------------------------------------------------- filter_props
def any_prop(k):
    return abstract(FixedProp, 'fixed', (k,), lambda k: {'_name': k, '_doc': 'fixed', '_meta': {}})


def filtering(props, mutable):
    cls = abs_class(Owner, props)
    d = mkdict('input', lambda k: uf_value('value', k), NAMES + ['other'])
    saved = snapshot(d)
    include = any_bool('include_immutable')
    target = cls if any_bool('given a class') else new_instance(cls, _backend={}, _listeners={})
    if any_bool('default argument'):
        include = True
        first, rest = properties.filter_props(target, d)
    else:
        first, rest = properties.filter_props(target, d, include)
    k = any_name('key', NAMES + ['other'])
    belongs = k in d and k in props and (include or mutable)
    check((k in first) == belongs, 'the first has exactly the keys that are properties')
    check((k in rest) == (k in d and not belongs), 'the second has exactly the others')
    if belongs:
        check(same(first.get(k, None), uf_value('value', k)), 'each with its value')
    elif k in d:
        check(same(rest.get(k, None), uf_value('value', k)), 'each with its value')
    check(same_dict(d, saved), 'the input is unchanged')
    check(first is not d and rest is not d and first is not rest, 'both dictionaries are new')


@contract('C26', FILTER, trials=600)
def filter_settable():
    """filter_props with settable properties, any class and dictionary."""
    filtering(mkdict('props', abs_prop, NAMES), True)


@contract('C26', FILTER, trials=600)
def filter_immutable():
    """filter_props with immutable properties, any class and dictionary."""
    filtering(mkdict('props', any_prop, NAMES), False)


@contract('C26', FILTER, trials=600)
def filter_renamed():
    """filter_props with renamed properties, any class and dictionary."""
    filtering(mkdict('props', lambda k: abstract(properties.Renamed, 'renamed', (k,),
                                                 lambda k: {'_name': k, '_new_name': k, '_doc': 'd', '_meta': {}}), NAMES), True)


# ---------------------------------------------------------------- real properties
class Model(properties.HasProperties):
    _REGISTRY = dict()
    a = properties.Integer('a')
    b = properties.String('b', required=False)
    old = properties.Renamed('a')
    fixed = GettableProperty('fixed', default=1)
    uid = properties.Uuid('uid')
    part = properties.Instance('part', properties.HasProperties)

    @properties.Integer('dyn')
    def dyn(self):
        return 1
    plain = 5


class SubModel(Model):
    extra = properties.List('extra', properties.Integer('i'))
    b = 'no longer a property'


@bounded('C26', FILTER, trials=800)
def filter_real():
    """filter_props on real classes with all sorts of properties and keys."""
    r = rng()
    keys = ['a', 'b', 'old', 'fixed', 'uid', 'part', 'dyn', 'plain', 'extra', 'nope', '__class__', 5, None, ('a',), '']
    d = {k: r.choice([1, 'v', None, undefined, [1]]) for k in r.sample(keys, r.randint(0, len(keys)))}
    cls = r.choice([Model, SubModel])
    include = r.choice([True, False])
    target = r.choice([cls, cls()])
    note('input', (cls.__name__, sorted(map(repr, d)), include))
    saved = dict(d)
    ids = {k: id(v) for k, v in d.items()}
    first, rest = properties.filter_props(target, d, include)
    names = {'a', 'old', 'part'} | ({'b'} if cls is Model else {'extra'})
    if include:
        names |= {'fixed', 'uid', 'dyn'}
    check(set(first) == {k for k in d if k in names}, 'the properties', first)
    check(set(rest) == {k for k in d if k not in names}, 'the others', rest)
    check({k: id(v) for k, v in dict(first, **{}).items()} == {k: ids[k] for k in first}, 'their values')
    check({k: id(v) for k, v in rest.items()} == {k: ids[k] for k in rest}, 'their values')
    check(d == saved and list(d) == list(saved), 'the input is unchanged')


def attempt(fn):
    try:
        return fn(), None
    except (AttributeError, TypeError, ValueError) as e:
        return None, e


BAD_ARGS = [
    (lambda: properties.Property(5), TypeError), (lambda: properties.Property('d', name=5), TypeError),
    (lambda: properties.Property('d', _name='x'), AttributeError), (lambda: properties.Property('d', nonsense=1), AttributeError),
    (lambda: properties.Property('d', terms={}), AttributeError), (lambda: properties.Property('d', info='x'), AttributeError),
    (lambda: properties.Property('d', required='yes'), TypeError), (lambda: properties.Property('d', serializer='x'), TypeError),
    (lambda: GettableProperty('d', required=True), AttributeError),
    (lambda: properties.Integer('d', min=5, max=4), TypeError), (lambda: properties.Integer('d', max=4, min=5), TypeError),
    (lambda: properties.Float('d', min=0.2, max=0.1), TypeError), (lambda: properties.Integer('d', cast=1), TypeError),
    (lambda: properties.Integer('d', min=5, default=4), ValueError), (lambda: properties.Integer('d', default=4, min=5), ValueError),
    (lambda: properties.String('d', strip=5), TypeError), (lambda: properties.String('d', change_case='mixed'), TypeError),
    (lambda: properties.String('d', unicode='x'), TypeError), (lambda: properties.String('d', regex=5), TypeError),
    (lambda: properties.StringChoice('d', 5), TypeError), (lambda: properties.StringChoice('d', [1, 2]), TypeError),
    (lambda: properties.StringChoice('d', ['a', 'A']), TypeError), (lambda: properties.StringChoice('d', {'a': ['b'], 'c': ['b']}), TypeError),
    (lambda: properties.StringChoice('d', ['a'], case_sensitive=0), TypeError),
    (lambda: properties.StringChoice('d', ['a'], descriptions=['x']), TypeError),
    (lambda: properties.StringChoice('d', ['a'], descriptions={'b': 'x'}), TypeError),
    (lambda: properties.Tuple('d', prop=5), TypeError), (lambda: properties.List('d', GettableProperty('x')), TypeError),
    (lambda: properties.List('d', int), TypeError), (lambda: properties.Set('d', min_length=-1), TypeError),
    (lambda: properties.List('d', min_length=2, max_length=1), TypeError), (lambda: properties.List('d', max_length=1, min_length=2), TypeError),
    (lambda: properties.Tuple('d', max_length=1.5), TypeError), (lambda: properties.List('d', coerce=1), TypeError),
    (lambda: properties.List('d', observe_mutations=1), TypeError), (lambda: properties.Dictionary('d', key_prop=5), TypeError),
    (lambda: properties.Dictionary('d', value_prop=dict), TypeError), (lambda: properties.Union('d', 5), TypeError),
    (lambda: properties.Union('d', [5]), TypeError), (lambda: properties.Union('d', [properties.Integer('i')], strict_instances=1), TypeError),
    (lambda: properties.Union('d', [properties.Integer('i')], default='x'), TypeError),
    (lambda: properties.Instance('d', 5), TypeError), (lambda: properties.Instance('d', 'Model'), TypeError),
    (lambda: properties.Array('d', dtype=str), TypeError), (lambda: properties.Array('d', dtype=()), TypeError),
    (lambda: properties.Array('d', shape=(1.5,)), TypeError), (lambda: properties.Array('d', shape=5), TypeError),
    (lambda: properties.Array('d', shape=('x',)), TypeError), (lambda: properties.Array('d', coerce='no'), TypeError),
    (lambda: properties.Vector3('d', length=0), TypeError), (lambda: properties.Vector2('d', length=-1), TypeError),
    (lambda: properties.Vector3('d', length='1'), TypeError), (lambda: properties.Vector3Array('d', shape=('*', 2)), TypeError),
    (lambda: properties.File('d', mode='x'), TypeError), (lambda: properties.File('d', mode='r', valid_modes=('w',)), TypeError),
    (lambda: properties.File('d', mode='r', valid_modes=('r', 'q')), TypeError),
    (lambda: properties.ImagePNG('d', filename=5), TypeError), (lambda: properties.Renamed(5), TypeError),
    (lambda: properties.Renamed('x', warn='no'), TypeError),
    (lambda: DynamicProperty('d', 5, properties.Integer('i')), (TypeError, AttributeError)),
    (lambda: DynamicProperty('d', lambda: 1, properties.Integer('i')), TypeError),
    (lambda: DynamicProperty('d', lambda self: 1, int), TypeError),
    (lambda: DynamicProperty('d', lambda self: 1, properties.Integer('i', default=1)), TypeError),
    (lambda: properties.Integer('d').tag(5), TypeError), (lambda: properties.Integer('d').tag({}, {}), TypeError),
    (lambda: properties.observer(5), TypeError), (lambda: properties.observer(['a', 5]), TypeError),
    (lambda: properties.validator(['a', None]), TypeError), (lambda: handlers.Observer('a', 'observe'), TypeError),
]


@bounded('C26', ARGS + LENGTHS, trials=400)
def wrong_arguments():
    """Each of these is refused, with the error that is documented."""
    r = rng()
    i = r.randrange(len(BAD_ARGS))
    note('case', i)
    fn, kind = BAD_ARGS[i]
    got, err = attempt(fn)
    check(err is not None, 'it is refused', (i, got))
    check(isinstance(err, kind), 'with that kind of error', (i, repr(err)))


def number(r):
    return r.choice([0, 1, 2, 5, -3, 10, 2.5, None])


@bounded('C26', ARGS + LENGTHS, trials=2500)
def created_properties():
    """Random arguments in random order: what is created has them all, a range, and a default it accepts."""
    r = rng()
    kind = r.choice(['integer', 'float', 'list', 'tuple', 'set', 'string', 'choice', 'file', 'array', 'dictionary', 'url', 'color'])
    opts = {
        'integer': {'min': lambda: number(r), 'max': lambda: number(r), 'cast': lambda: r.choice([True, False, 1]),
                    'default': lambda: r.choice([0, 1, 3, 7, 2.5, 'x', -1, undefined])},
        'float': {'min': lambda: number(r), 'max': lambda: number(r), 'cast': lambda: r.choice([True, False]),
                  'default': lambda: r.choice([0, 1.5, 3, 'x', -1])},
        'list': {'min_length': lambda: r.choice([0, 1, 2, 3, -1, 1.5, True]), 'max_length': lambda: r.choice([0, 1, 2, 3, -1, 'x']),
                 'coerce': lambda: r.choice([True, False]), 'default': lambda: r.choice([[1], [], 5, ['x']])},
        'string': {'strip': lambda: r.choice(['', ' ', 'ab', 5, None]), 'change_case': lambda: r.choice([None, 'upper', 'lower', 'up']),
                   'regex': lambda: r.choice(['^a', 'b$', 5]), 'default': lambda: r.choice(['abc', 'b', '', 5])},
        'choice': {'case_sensitive': lambda: r.choice([True, False, 'x']), 'default': lambda: r.choice(['a', 'A', 'z', 5])},
        'file': {'mode': lambda: r.choice([None, 'r', 'rb', 'w', 'q']), 'valid_modes': lambda: r.choice(['r', ('r', 'rb'), ['w'], ('r', 'q'), 5])},
        'array': {'shape': lambda: r.choice([('*',), (2,), {(2,), (3,)}, (2.5,), 'x', None, ('*', 3), [2], ()]),
                  'dtype': lambda: r.choice([int, float, (int, float), bool, str, (), [int]])},
        'dictionary': {'coerce': lambda: r.choice([True, False]), 'observe_mutations': lambda: r.choice([True, False, 0]),
                       'default': lambda: r.choice([{}, {'a': 1}, [], {'a': 'x'}])},
        'url': {'remove_parameters': lambda: r.choice([True, False]), 'remove_fragment': lambda: r.choice([True, False]),
                'default': lambda: r.choice(['http://a.b/c', 'nope', 5])},
        'color': {'default': lambda: r.choice(['red', 'random', (1, 2, 3), 'reddish', 5])},
    }
    opts['tuple'] = dict(opts['list'], default=lambda: r.choice([(1,), (), 5, ('x',)]))
    opts['set'] = dict(opts['list'], default=lambda: r.choice([{1}, set(), 5, {'x'}]))
    o = dict(opts[kind])
    common = {'required': lambda: r.choice([True, False, 'no', 1]), 'name': lambda: r.choice(['n', 'm', 5]),
              'serializer': lambda: r.choice([str, 5])}
    for k in common:
        if r.random() < 0.1:
            o[k] = common[k]
    names = [k for k in o if r.random() < 0.7]
    r.shuffle(names)
    kw = {k: o[k]() for k in names}
    note('input', (kind, repr(kw)))
    make = {'integer': lambda **k: properties.Integer('d', **k), 'float': lambda **k: properties.Float('d', **k),
            'list': lambda **k: properties.List('d', properties.Integer('i'), **k),
            'tuple': lambda **k: properties.Tuple('d', properties.Integer('i'), **k),
            'set': lambda **k: properties.Set('d', properties.Integer('i'), **k),
            'string': lambda **k: properties.String('d', **k),
            'choice': lambda **k: properties.StringChoice('d', {'a': ['x'], 'b': []}, **k),
            'file': lambda **k: properties.File('d', **k), 'array': lambda **k: properties.Array('d', **k),
            'dictionary': lambda **k: properties.Dictionary('d', key_prop=properties.String('k'), value_prop=properties.Integer('i'), **k),
            'url': lambda **k: properties.extras.URL('d', **k), 'color': lambda **k: properties.Color('d', **k)}[kind]
    p, err = attempt(lambda: make(**kw))
    ok = fits(kind, kw)
    if err is not None:
        check(not ok, 'valid arguments are accepted', repr(err))
        return
    check(ok, 'invalid arguments are refused')
    for k, v in kw.items():
        got = getattr(p, k)
        if k in ('serializer', 'regex', 'shape', 'valid_modes', 'dtype') or k == 'default' and v is undefined:
            continue
        check(got is v or got == v, 'each attribute is as given', (k, got))
    if 'default' in kw and kw['default'] is not undefined:
        p.validate(None, p.default)
    if kind in ('integer', 'float') and p.min is not None and p.max is not None:
        check(p.min <= p.max, 'the range')
    if kind == 'array' and 'shape' in kw:
        s = kw['shape']
        check(p.shape == (s if s is None or isinstance(s, set) else {s}), 'the shapes', p.shape)
    if kind == 'file' and 'valid_modes' in kw:
        v = kw['valid_modes']
        check(p.valid_modes == ((v,) if isinstance(v, str) else tuple(v)), 'the modes')


def fits(kind, kw):
    """Are the arguments acceptable?"""
    if not isinstance(kw.get('required', True), bool) or not isinstance(kw.get('name', ''), str) or kw.get('serializer') == 5:
        return False
    d = kw.get('default', undefined)
    if kind in ('integer', 'float'):
        mn, mx = kw.get('min'), kw.get('max')
        if mn is not None and mx is not None and mn > mx or not isinstance(kw.get('cast', False), bool):
            return False
        if d is undefined:
            return True
        if isinstance(d, str):
            return False
        x = d
        if kind == 'integer':
            if d != int(d) and not kw.get('cast'):
                return False
            x = int(d)
        return not (mn is not None and x < mn or mx is not None and x > mx)
    if kind in ('list', 'tuple', 'set'):
        for k in ('min_length', 'max_length'):
            if k in kw and (not isinstance(kw[k], int) or kw[k] < 0):
                return False
        if 'min_length' in kw and 'max_length' in kw and kw['min_length'] > kw['max_length']:
            return False
        if d is undefined:
            return True
        if d == 5 and not isinstance(d, (list, tuple, set)):
            return bool(kw.get('coerce'))
        return 'x' not in d
    if kind == 'string':
        strip = kw.get('strip', '')
        if not isinstance(strip, str) or kw.get('change_case') == 'up' or kw.get('regex') == 5:
            return False
        if d is undefined:
            return True
        if not isinstance(d, str):
            return False
        return 'regex' not in kw or (d.startswith('a') if kw['regex'] == '^a' else d.endswith('b'))
    if kind == 'choice':
        if not isinstance(kw.get('case_sensitive', False), bool):
            return False
        return d is undefined or d == 'a' or d == 'A' and not kw.get('case_sensitive')
    if kind == 'file':
        m = kw.get('mode')
        if m == 'q':
            return False
        if 'valid_modes' in kw:
            v = kw['valid_modes']
            v = v if isinstance(v, (tuple, list)) else (v,)
            return m is not None and m in v and all(x in ('r', 'rb', 'w') for x in v)
        return True
    if kind == 'array':
        if 'shape' in kw:
            s = kw['shape']
            if not (s is None or s in (('*',), (2,), ('*', 3), {(2,), (3,)}, ())):
                return False
        if 'dtype' in kw and kw['dtype'] in (str, ()):
            return False
        return True
    if kind == 'dictionary':
        if not isinstance(kw.get('observe_mutations', False), bool):
            return False
        return d is undefined or d == [] and bool(kw.get('coerce')) or isinstance(d, dict) and 'x' not in d.values()
    if kind == 'url':
        return d is undefined or d == 'http://a.b/c'
    if kind == 'color':
        return d is undefined or d in ('red', 'random', (1, 2, 3))
    return True


@bounded('C26', TAG + ARGS, trials=300)
def tags_and_terms():
    """Tags of one property do not appear on another; terms give the arguments back."""
    r = rng()
    a, b = properties.Integer('a', min=1), properties.Integer('a', min=1)
    d = {r.choice('xyz'): r.randint(0, 9) for _ in range(2)}
    saved = dict(d)
    kw = {r.choice('xyz'): r.randint(0, 9)} if r.random() < 0.5 else {}
    note('tags', (d, kw))
    a.tag(d, **kw)
    check(a.meta == dict(saved, **kw) and d == saved and b.meta == {}, 'the tags', a.meta)
    b.tag(y=1)
    check(a.meta == dict(saved, **kw) and b.meta == {'y': 1}, 'other properties are unchanged')
    check(a.terms.cls is properties.Integer and a.terms.args == ('a',) and a.terms.kwargs == {'min': 1} and a.terms.name == '',
          'terms are the arguments')

    class Tagged(properties.HasProperties):
        _REGISTRY = dict()
        v = properties.Integer('v').tag(unit=r.choice(['m', 's']))
        w = properties.Integer('w')

        @v
        def dyn(self):
            return 1
    check('unit' in Tagged._props['v'].meta and Tagged._props['w'].meta == {} and 'unit' in Tagged._props['dyn'].meta, 'tags of a class')
    Tagged._props['dyn'].tag(other=1)
    check('other' not in Tagged._props['v'].meta, 'a dynamic property has its own tags')
