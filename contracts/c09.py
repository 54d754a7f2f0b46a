"""C09: HasProperties.validate."""
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from pyvc.api import *           # noqa

VAL = ['properties.base.base:HasProperties.validate']
PROPS = ['properties.base.base:HasProperties._validate_props']
GENERIC = (ValueError, KeyError, TypeError, AttributeError)


class AbsClassValidator(object):
    """A class validator: may raise anything, and return anything."""

    def func(self, instance):
        log('class validator', self, instance)
        if uf_bool('class validator raises', self):
            raise uf_exc('class validator error', self)
        if uf_bool('class validator fails', self):
            return False
        return uf_bool('returns True', self) or None


def abs_validator(key):
    return abstract(AbsClassValidator, 'class validator', (key,))


def not_in_validation(inst):
    check(not getattr(inst, '_getting_validated', False), 'the instance is not marked as in validation')
    check(not getattr(inst, '_validation_error_tuples', None), 'no gathered errors are left')
    check(getattr(inst, '_non_validation_error', None) is None, 'no other error is left')


def run_validate(inst):
    try:
        return inst.validate(), None
    except Exception as e:
        return None, e


def seen_tuples(tuples):
    return [(t.prop, t.reason, t.instance, t.message) for t in tuples]


@contract('C09', VAL, trials=800, slow=True)
def class_validators():
    """Any number of class validators, each of which may raise, fail or pass."""
    vals = mkdict('validators', abs_validator, ['va', 'vb', 'vc', 'vd'])
    cls = abs_class(HookOwner, {}, _class_validators=vals)
    inst = new_instance(cls)
    clear_trace()
    result, err = run_validate(inst)
    events, gathered, first, escape = [], [], None, None
    for k in vals:
        v = vals[k]
        events.append(('class validator', v, inst))
        if uf_bool('class validator raises', v):
            e = uf_exc('class validator error', v)
            if isinstance(e, properties.ValidationError):
                for t in e.error_tuples:
                    gathered.append((t.prop, t.reason, t.instance))
            elif isinstance(e, GENERIC):
                if first is None:
                    first = e
            else:
                escape = e
                break
        elif uf_bool('class validator fails', v):
            gathered.append((None, None, inst))
    got = trace()
    if escape is not None:
        check(err is escape, 'other exceptions propagate at once')
        check(same_seq(got, events), 'validators run in order')
    elif gathered:
        check(isinstance(err, properties.ValidationError), 'one ValidationError is raised')
        check(same_seq([(t.prop, t.reason, t.instance) for t in err.error_tuples], gathered),
              'with every error tuple once, in order')
        check(same_seq(got, events + [('hook', inst)]), 'every validator runs, then the hook')
        check(same_seq([(t.prop, t.reason, t.instance) for t in inst.hooked], gathered), 'the hook gets the error tuples')
    else:
        check(same_seq(got, events), 'every validator runs once, in order')
        check(err is first, 'another error is raised only if there is no ValidationError')
        if first is None:
            check(result is True, 'and otherwise the result is True')
    not_in_validation(inst)


class NotifyOwner(HookOwner):
    """Notification by contract: it may raise a ValidationError or replace the value."""

    recorded = False

    def _notify(self, change):
        k, v = change['name'], change['value']
        if self.recorded:
            log('notify', k, change['previous'], v, change['mode'])
        if uf_bool('listener raises', k, v):
            raise properties.ValidationError('rejected by a listener', 'listener', k, self)
        change['value'] = uf_value('survivor', k, v)


class Recorded(NotifyOwner):
    recorded = True


class CheckedProp(AbsProp):
    """assert_valid by contract."""

    def assert_valid(self, instance, value=None):
        if instance.recorded:
            log('assert_valid', self.name, instance)
        if uf_bool('assert_valid raises', self):
            et = properties.utils.ErrorTuple
            raise properties.ValidationError('not valid', _error_tuples=[
                et('first', 'reason', self.name, instance), et('second', 'another', 'nested', None)])
        return uf_bool('valid', self)


def checked_prop(key):
    return abstract(CheckedProp, 'prop', (key,), prop_fields)


def survives(k, p, v):
    return not uf_bool('listener raises', k, v) and p.equal(v, uf_value('survivor', k, v))


NAMES = ['x', 'y', 'z']


@contract('C09', PROPS + VAL, trials=800, slow=True)
def every_property_is_checked():
    """Each property's listeners see the stored value, and each property is asserted valid, in order."""
    props = mkdict('props', checked_prop, NAMES)
    backend = mkdict('backend', lambda k: uf_value('stored', k), NAMES)
    inst = new_instance(abs_class(Recorded, props), _backend=backend)
    clear_trace()
    run_validate(inst)
    events, invalid = [], False
    for k in props:
        v = backend.get(k, None)
        if v is not None:
            events.append(('notify', k, v, v, 'validate'))
        if v is None or survives(k, props[k], v):
            events.append(('assert_valid', k, inst))
            if uf_bool('assert_valid raises', props[k]) or not uf_bool('valid', props[k]):
                invalid = True
        else:
            invalid = True
    if invalid:
        events.append(('hook', inst))
    check(same_seq(trace(), events), 'every property is checked, in order')


@contract('C09', PROPS + VAL, trials=800, slow=True)
def gathered_errors():
    """validate is True exactly if nothing is wrong, else one error has exactly the error tuples found."""
    props = mkdict('props', checked_prop, NAMES)
    backend = mkdict('backend', lambda k: uf_value('stored', k), NAMES)
    inst = new_instance(abs_class(NotifyOwner, props), _backend=backend)
    result, err = run_validate(inst)
    gathered = []
    for k in props:
        v = backend.get(k, None)
        if v is not None and not survives(k, props[k], v):
            if uf_bool('listener raises', k, v):
                gathered.append((k, 'listener', inst))
            else:
                gathered.append((k, 'invalid', inst))
        elif uf_bool('assert_valid raises', props[k]):
            gathered.append((k, 'reason', inst))
            gathered.append(('nested', 'another', None))
        elif not uf_bool('valid', props[k]):
            gathered.append((k, 'invalid', inst))
    if gathered:
        check(isinstance(err, properties.ValidationError), 'a ValidationError is raised')
        check(same_seq([(t.prop, t.reason, t.instance) for t in err.error_tuples], gathered), 'with every error tuple')
        check(same_seq([(t.prop, t.reason, t.instance) for t in inst.hooked], gathered), 'and the hook gets them')
    else:
        check(err is None and result is True, 'the instance is valid only if every property is')
    not_in_validation(inst)


class RaisingProp(AbsProp):
    """assert_valid raises anything."""

    def assert_valid(self, instance, value=None):
        if uf_bool('assert_valid raises', self):
            raise uf_exc('assert_valid error', self)
        return True


def raising_prop(key):
    return abstract(RaisingProp, 'prop', (key,), prop_fields)


@contract('C09', PROPS + VAL, trials=800, slow=True)
def other_errors():
    """Errors of any type: ValidationErrors take precedence, others are re-raised."""
    props = mkdict('props', raising_prop, NAMES)
    inst = new_instance(abs_class(HookOwner, props))
    clear_trace()
    result, err = run_validate(inst)
    invalid, other = False, None
    for k in props:
        p = props[k]
        if uf_bool('assert_valid raises', p):
            e = uf_exc('assert_valid error', p)
            if isinstance(e, properties.ValidationError):
                if len(e.error_tuples) > 0:
                    invalid = True
            else:
                other = e
                break
    if other is not None and not isinstance(other, GENERIC):
        check(err is other, 'other exceptions propagate at once')
    elif invalid:
        check(isinstance(err, properties.ValidationError), 'a ValidationError is raised')
        check(same_seq(trace(), [('hook', inst)]), 'the hook is called once')
    else:
        check(err is other, 'another error is raised only if there is no ValidationError')
        if other is None:
            check(result is True, 'the instance is valid only if every property is')
        check(same_seq(trace(), []), 'the hook is not called')
    not_in_validation(inst)


# ---------------------------------------------------------------- assert_valid of each kind of property
ASSERT = ['properties.basic:GettableProperty.assert_valid', 'properties.basic:Property.assert_valid']


@contract('C09', ASSERT, trials=600)
def property_assert_valid():
    """A set value must be equal to its re-validation, and a required value must be set."""
    p = abs_prop('x')
    stored = uf_value('stored', 'x')
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={'x': stored} if any_bool('is set') else {})
    before = inst._backend.get('x', None)
    given = choose('given', [None, uf_value('given', 'x')])
    v = before if given is None else given
    result, err = None, None
    try:
        result = p.assert_valid(inst, given)
    except Exception as e:
        err = e
    if v is None:
        if p.required:
            check(isinstance(err, properties.ValidationError), 'a required value must be set')
            check(err.error_tuples[0].reason == 'missing' and err.error_tuples[0].prop == 'x' and
                  err.error_tuples[0].instance is inst, 'and the error says so')
        else:
            check(err is None and result is True, 'others may be unset')
    elif uf_bool('rejects', p, v):
        check(err is uf_exc('rejection', p, v), 'the value must be accepted')
    elif p.equal(v, uf_value('validated', p, v)):
        check(err is None and result is True, 'a value equal to its re-validation is valid')
    else:
        check(isinstance(err, properties.ValidationError), 'a value that differs from its re-validation is not')
    check(same(inst._backend.get('x', None), before), 'nothing is changed')


class AbsElem(properties.Property):
    """An element property: everything by contract; its equal is an equality."""

    def validate(self, instance, value):
        if uf_bool('element rejected', self, value):
            raise properties.ValidationError('rejected', 'rejected', self.name, instance)
        return uf_value('element', self, value)

    def equal(self, value_a, value_b):
        return uf_bool('element equal', self, value_a, value_b)

    def assert_valid(self, instance, value=None):
        if uf_bool('element invalid', self, value):
            raise properties.ValidationError('invalid', 'invalid', self.name, instance)
        return uf_bool('element valid', self, value)


def elem(name='elem'):
    return abstract(AbsElem, name, (), lambda: {'_name': 'x', '_meta': {}, '_required': False, '_default': undefined})


@contract(['C09', 'C07'], ['properties.base.containers:Tuple.assert_valid', 'properties.base.containers:Tuple.equal'],
          trials=600, slow=True)
def list_assert_valid():
    """A list or tuple of any length: every element re-validates and is valid, and the length is in bounds."""
    kind = choose('kind', [properties.List, properties.Tuple])
    p = kind('doc')
    p.name = 'x'
    e = elem()
    p.prop = e
    if any_bool('bounded length'):
        lo, hi = any_int('min_length'), any_int('max_length')
        assume(0 <= lo <= hi)
        p.min_length, p.max_length = lo, hi
    values = mkseq('values', lambda i: uf_value('value', i))
    v = values if kind is properties.List else tuple(values)
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={'x': v})
    result, err = None, None
    try:
        result = p.assert_valid(inst)
    except properties.ValidationError as x:
        err = x
    good = True
    if p.min_length is not None and not p.min_length <= len(values) <= p.max_length:
        good = False
    for w in values:
        if uf_bool('element rejected', e, w) or not uf_bool('element equal', e, w, uf_value('element', e, w)):
            good = False
        elif uf_bool('element invalid', e, w) or not uf_bool('element valid', e, w):
            good = False
    if good:
        check(err is None and result is True, 'a good list is valid')
    else:
        check(err is not None or result is False, 'a list with anything wrong is not')
    check(inst._backend.get('x') is v, 'nothing is changed')


@contract(['C09', 'C07'], ['properties.base.containers:Dictionary.assert_valid'], trials=600, slow=True)
def dictionary_assert_valid():
    """A dictionary of any size: every key and every value is valid."""
    p = properties.Dictionary('doc')
    p.name = 'x'
    e = elem('value prop')
    p.value_prop = e
    keyed = any_bool('has a key prop')
    if keyed:
        p.key_prop = elem('key prop')
    values = mkdict('values', lambda k: uf_value('value', k), ['a', 'b', 'c'])
    # re-validation of the whole dictionary is by its own contract (C07)
    ok = any_bool('re-validates')
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={'x': values})
    p.validate = lambda instance, value: value
    p.equal = lambda a, b: ok
    result, err = None, None
    try:
        result = p.assert_valid(inst)
    except properties.ValidationError as x:
        err = x
    good = ok
    for k in values:
        if uf_bool('element invalid', e, values[k]) or not uf_bool('element valid', e, values[k]):
            good = False
        if keyed and (uf_bool('element invalid', p.key_prop, k) or not uf_bool('element valid', p.key_prop, k)):
            good = False
    if good:
        check(err is None and result is True, 'a good dictionary is valid')
    else:
        check(err is not None or result is False, 'a dictionary with anything wrong is not')
    check(inst._backend.get('x') is values, 'nothing is changed')


class Nested(Owner):
    """validate by contract."""

    def validate(self):
        log('validate', self)
        if uf_bool('nested invalid', self.tag):
            raise properties.ValidationError('nested', 'nested', None, None)
        return True


@contract('C09', ['properties.base.instance:Instance.assert_valid'], trials=300)
def instance_assert_valid():
    """An instance property is valid only if the nested instance is."""
    p = properties.Instance('doc', Nested)
    p.name = 'x'
    nested = new_instance(Nested, tag='t')
    kind = choose('value', ['unset', 'nested', 'other'])
    v = {'unset': None, 'nested': nested, 'other': 'text'}[kind]
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={} if v is None else {'x': v})
    p.required = any_bool('required')
    clear_trace()
    result, err = None, None
    try:
        result = p.assert_valid(inst)
    except properties.ValidationError as x:
        err = x
    if kind == 'unset':
        check((err is None and result is True) == (not p.required), 'unset is valid unless required')
    elif kind == 'nested':
        check(same_seq(trace(), [('validate', nested)]), 'the nested instance is validated once')
        if uf_bool('nested invalid', 't'):
            check(err is not None and err.error_tuples[0].reason == 'nested', 'its error is raised')
        else:
            check(err is None and result is True, 'it is valid')
    else:
        check(err is not None, 'a value that is no instance is invalid')
    check(inst._backend.get('x', None) is v, 'nothing is changed')


@contract('C09', ['properties.base.union:Union.assert_valid', 'properties.base.union:Union._try_prop_method'],
          trials=400, slow=True)
def union_assert_valid():
    """A union value is valid only if it re-validates and one of the alternatives asserts it."""
    a, b = elem('a'), elem('b')
    p = properties.Union('doc', props=[a, b])
    p.name = 'x'
    v = uf_value('stored', 'x')
    assume(v is not None)
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={'x': v})
    result, err = None, None
    try:
        result = p.assert_valid(inst)
    except properties.ValidationError as x:
        err = x
    good = False
    for q in (a, b):
        if not uf_bool('element invalid', q, v):
            good = uf_bool('element valid', q, v)
            break
    if not uf_bool('element rejected', a, v):
        w = uf_value('element', a, v)
    elif not uf_bool('element rejected', b, v):
        w = uf_value('element', b, v)
    else:
        good, w = False, v
    if not (uf_bool('element equal', a, v, w) or uf_bool('element equal', b, v, w)):
        good = False
    if good:
        check(err is None and result is True, 'a good value is valid')
    else:
        check(err is not None or result is False, 'others are not')
    check(same(inst._backend.get('x'), v), 'nothing is changed')


# ---------------------------------------------------------------- bounded: real object graphs
class Part(properties.HasProperties):
    _REGISTRY = dict()
    n = properties.Integer('n', min=0)
    s = properties.StringChoice('s', ['a', 'b'], required=False)
    nums = properties.List('nums', properties.Integer('i'), min_length=1, max_length=4)
    pair = properties.Tuple('pair', properties.Float('f'), required=False)
    table = properties.Dictionary('table', key_prop=properties.String('k'), value_prop=properties.Integer('v'), required=False)
    names = properties.Set('names', properties.String('s'), required=False)
    child = properties.Instance('child', properties.HasProperties, required=False)
    kids = properties.List('kids', properties.Instance('kid', properties.HasProperties), required=False)
    index = properties.Dictionary('index', value_prop=properties.Instance('v', properties.HasProperties), required=False)
    either = properties.Union('either', [properties.Integer('i'), properties.Instance('p', properties.HasProperties)], required=False)
    guarded = properties.Integer('guarded', required=False)

    ran = None
    calls = None

    @properties.validator('guarded')
    def _guard(self, change):
        if change['value'] == 13:
            raise properties.ValidationError('unlucky', 'unlucky', 'guarded', self)
        if change['value'] == 14:
            change['value'] = 15

    @properties.validator
    def _own(self):
        self.ran = (self.ran or 0) + 1
        if self.n == 77:
            return False
        if self.n == 78:
            raise properties.ValidationError('own', 'own', 'n', self)
        if self.n == 79:
            raise KeyError('own')

    def _error_hook(self, error_tuples):
        self.calls = (self.calls or []) + [list(error_tuples)]


FIELDS = ['child', 'kids', 'index', 'either']
BREAKS = [('n', None), ('n', -1), ('n', 'x'), ('n', 1.5), ('s', 'c'), ('s', 'A'), ('nums', []), ('nums', [1] * 5), ('nums', None),
          ('nums', [1, 'x']), ('nums', (1,)), ('pair', (1.0, 'x')), ('pair', [1.0]), ('table', {'a': 'x'}),
          ('table', {1: 1}), ('table', {'a': 1.5}), ('names', {'a', 5}), ('child', 5), ('either', 'text'),
          ('guarded', 13), ('guarded', 14), ('n', 77), ('n', 78), ('n', 79), ('kids', [5]), ('index', {'a': 5})]


def build_graph(r):
    parts = []
    for i in range(r.randint(1, 5)):
        p = Part(n=r.randint(0, 9), nums=[r.randint(0, 5) for _ in range(r.randint(1, 4))])
        if r.random() < 0.5:
            p.pair = (1.0, float('inf'))
        if r.random() < 0.5:
            p.table = {'a': 1, 'b': 2}
        if r.random() < 0.5:
            p.names = {'x', 'y'}
        if r.random() < 0.5:
            p.guarded = 1
        if r.random() < 0.5:
            p.s = 'a'
        parts.append(p)
    for p in parts:
        for f in FIELDS:
            if r.random() < 0.35:
                qs = [r.choice(parts) for _ in range(r.randint(1, 2))]
                p._backend[f] = {'child': qs[0], 'kids': qs, 'index': {'k%d' % i: q for i, q in enumerate(qs)},
                                 'either': qs[0]}[f]
    broken = {}
    for p in parts:
        if r.random() < 0.35:
            for f, v in r.sample(BREAKS, r.choice([1, 1, 2])):
                broken.setdefault(id(p), {})[f] = v
                if v is None:
                    p._backend.pop(f, None)
                else:
                    p._backend[f] = v
    return parts, broken


def dump(parts):
    def show(v):
        if isinstance(v, properties.HasProperties):
            return 'ref %d' % id(v)
        if isinstance(v, dict):
            return ('dict', id(v), [(k, show(x)) for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, id(v), [show(x) for x in v])
        return repr(v)
    return [[(k, show(v)) for k, v in sorted(p._backend.items())] for p in parts]


def valid(p, broken, progress):
    """Is p valid?  Instances in progress count as valid."""
    if id(p) in progress:
        return True
    if broken.get(id(p)):
        return False
    b = p._backend
    refs = [b[f] for f in ('child', 'either') if f in b] + b.get('kids', []) + list(b.get('index', {}).values())
    return all(valid(q, broken, progress | {id(p)}) for q in refs)


@bounded('C09', VAL + PROPS, trials=900)
def object_graphs():
    """Random graphs (shared and self-referencing instances), broken in random ways behind the library's back."""
    r = rng()
    parts, broken = build_graph(r)
    root = parts[0]
    note('graph', ([(k, v) for k, v in broken.items()] and sorted(str(list(d.items())) for d in broken.values()),
                   [sorted(p._backend) for p in parts]))
    before = dump(parts)
    want = valid(root, broken, frozenset())
    for again in range(2):
        for p in parts:
            p.calls = p.ran = None
        result, err = run_validate(root)
        check((result is True and err is None) if want else err is not None, 'valid exactly if everything is',
              (want, repr(err), broken.get(id(root))))
        check(dump(parts) == before, 'no property value is changed')
        check(root.ran == 1, 'the class validators of the instance run once')
        for p in parts:
            not_in_validation(p)
        if err is not None and isinstance(err, properties.ValidationError):
            check(root.calls is not None and root.calls[-1] == list(err.error_tuples),
                  'the hook gets exactly the error tuples', (root.calls, err.error_tuples))
            check(len(root.calls) == 1, 'once')
            reasons = [t for t in err.error_tuples if t.instance is root]
            for f, v in broken.get(id(root), {}).items():
                if (f, v) in (('n', 77), ('n', 79)) or any(d.get('n') == 79 for d in broken.values()):
                    continue
                check(any(t.prop == f for t in err.error_tuples), 'every invalid property is reported', (f, err.error_tuples))
            if broken.get(id(root), {}).get('n') == 77:
                check(any(t.prop is None and t.instance is root for t in err.error_tuples), 'a failing class validator is reported')
            check(len(set(map(id, err.error_tuples))) == len(err.error_tuples), 'each once')
            kid = root._backend.get('child')
            if isinstance(kid, Part) and kid is not root and kid.calls and \
                    not any(d.get('n') == 79 for d in broken.values()):
                for t in kid.calls[0]:
                    check(t in err.error_tuples, 'every error tuple of a nested instance is reported')
        elif err is not None:
            check(isinstance(err, KeyError), 'another error only if there is no ValidationError', repr(err))
        else:
            check(root.calls is None, 'the hook is not called')
            for q in reachable(root):
                check(q.ran >= 1, 'nested instances are validated')


def reachable(p, seen=None):
    seen = {} if seen is None else seen
    if id(p) in seen:
        return []
    seen[id(p)] = p
    b = p._backend
    refs = [b[f] for f in ('child', 'either') if f in b] + b.get('kids', []) + list(b.get('index', {}).values())
    for q in refs:
        reachable(q, seen)
    return list(seen.values())


@bounded('C09', VAL, trials=300)
def validators_along_the_mro():
    """Every class validator of the class and its bases runs exactly once; an override replaces it."""
    r = rng()
    names = ['va', 'vb', 'vc', 'vd']
    ran = []

    def make(cls, nm, mode):
        def f(self):
            ran.append((cls, nm))
            if mode == 'false':
                return False
            if mode == 'raise':
                raise properties.ValidationError('raised by ' + nm, nm, None, self)
            if mode == 'other':
                raise TypeError(nm)
            return {'zero': 0, 'none': None, 'true': True, 'empty': ''}[mode]
        return f
    bases, eff = (properties.HasProperties,), {}
    for depth in range(r.randint(1, 3)):
        d = {'_REGISTRY': {}, '_error_hook': lambda self, e: ran.append(('hook', len(e)))}
        for nm in names:
            k = r.random()
            if k < 0.45:
                mode = r.choice(['false', 'raise', 'other', 'zero', 'none', 'true', 'empty', 'none', 'true'])
                d[nm] = properties.validator(make(depth, nm, mode))
                eff[nm] = (depth, mode)
            elif k < 0.55 and nm in eff:
                d[nm] = make(depth, nm, 'none')
                eff.pop(nm)
        bases = (type(properties.HasProperties)('V%d' % depth, bases, d),)
    inst = bases[0]()
    note('validators', sorted(eff.items()))
    result, err = run_validate(inst)
    got = [x for x in ran if x[0] != 'hook']
    check(sorted(got) == sorted((d, nm) for nm, (d, m) in eff.items()), 'each effective validator runs once', (got, eff))
    bad = sorted(nm if m == 'raise' else '' for nm, (d, m) in eff.items() if m in ('raise', 'false'))
    if bad:
        check(isinstance(err, properties.ValidationError), 'ValidationErrors take precedence', repr(err))
        check(sorted(t.reason or '' for t in err.error_tuples) == bad, 'all of them', err.error_tuples)
        check([x for x in ran if x[0] == 'hook'] == [('hook', len(bad))] and ran[-1][0] == 'hook', 'then the hook')
    elif any(m == 'other' for d, m in eff.values()):
        check(isinstance(err, TypeError), 'the other error', repr(err))
        check(str(err) == [x[1] for x in got if eff[x[1]][1] == 'other'][0], 'the first of them')
    else:
        check(result is True and err is None, 'the result is True', (result, repr(err)))
