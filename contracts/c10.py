"""C10: construction from keyword arguments."""
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

INIT = ['properties.base.base:HasProperties.__init__']
GENERIC = (ValueError, KeyError, TypeError, AttributeError)


def outcome(keys, kwargs, props):
    """What construction must do: events, gathered tuples, first other error, escaping error."""
    events, tuples, first, escape, unknown = [], [], None, None, False
    for k in keys:
        v = kwargs[k]
        if k not in props:
            unknown = True
            break
        events.append(('assign', k, v))
        if uf_rare('assignment fails', props[k], v):
            e = uf_exc('assignment error', props[k], v)
            if isinstance(e, properties.ValidationError):
                tuples.extend(e.error_tuples)
            elif isinstance(e, GENERIC):
                if first is None:
                    first = e
            else:
                escape = e
                break
    return events, tuples, first, escape, unknown


def clean(inst):
    """No error bookkeeping is left: the instance is not marked as being validated."""
    check(not getattr(inst, '_getting_validated', False), 'the instance is not marked as in validation')
    check(not getattr(inst, '_validation_error_tuples', None), 'no gathered errors are left')
    check(getattr(inst, '_non_validation_error', None) is None, 'no other error is left')


@contract('C10', INIT, trials=800, slow=True)
def init_keywords():
    """Any keywords, any of which may fail in any way, on a class with any properties."""
    props = mkdict('props', assign_prop, ['x', 'y', 'z', 'w'])
    cls = abs_class(HookOwner, props)
    kwargs = mkdict('keywords', lambda k: uf_value('keyword value', k), ['x', 'y', 'z', 'w', 'nope'])
    inst = new_instance(cls, _backend={}, _listeners={})
    clear_trace()
    err = None
    try:
        inst.__init__(**kwargs)
    except Exception as e:
        err = e
    events, tuples, first, escape, unknown = outcome(kwargs, kwargs, props)
    got = trace()
    if unknown:
        check(same_seq(got, events), 'keywords before an unknown one are assigned in order')
        check(isinstance(err, AttributeError), 'an unknown keyword raises AttributeError')
    elif escape is not None:
        check(same_seq(got, events), 'keywords are assigned in order')
        check(err is escape, 'other exceptions propagate at once')
    elif tuples:
        check(same_seq(got, events + [('hook', inst)]), 'all keywords are assigned in order, then the hook is called once')
        check(same_seq(inst.hooked, tuples), 'with all error tuples')
        check(isinstance(err, properties.ValidationError), 'one ValidationError is raised')
        check(same_seq(err.error_tuples, tuples), 'with all error tuples, in order')
    else:
        check(same_seq(got, events), 'all keywords are assigned, in order, and the hook is not called')
        check(err is first, 'the first other error is re-raised')
    clean(inst)


# ---------------------------------------------------------------- bounded: real classes
class Plain(Exception):
    """Not one of the errors that construction gathers."""


def tuples(n, tag):
    return [properties.utils.ErrorTuple('%s %d' % (tag, i), 'bad', 'v', None) for i in range(n)]


class Built(properties.HasProperties):
    """Everything that can be given as a keyword."""

    _REGISTRY = dict()
    log = None
    plain = 'plain'

    n = properties.Integer('n', min=0, max=10)
    s = properties.String('s', default='start')
    items = properties.List('items', properties.Integer('i'), default=list)
    v = properties.Integer('v')
    old = properties.Renamed('n', warn=False)
    fixed = properties.GettableProperty('fixed', default=5)
    boss = properties.Instance('boss', properties.HasProperties)

    def __init__(self, **kwargs):
        self.held = 'held'
        super(Built, self).__init__(**kwargs)

    @properties.Integer('computed')
    def computed(self):
        return self.n

    @computed.setter
    def computed(self, value):
        self.n = value

    @property
    def attr(self):
        return 1

    @attr.setter
    def attr(self, value):
        Built.log.append(('attr', value))
        fail_with(value)

    @properties.validator('v')
    def _check_v(self, change):
        fail_with(change['value'])

    @properties.observer(properties.everything)
    def _seen(self, change):
        Built.log.append((change['name'], change['value']))
        Built.last = self

    @properties.validator
    def _ran(self):
        Built.log.append('class validator')

    def _error_hook(self, error_tuples):
        Built.log.append(('hook', list(error_tuples)))
        Built.last = self


def fail_with(code):
    if not isinstance(code, int) or code < 100:
        return
    kind = ['v1', 'v3', 'value', 'key', 'type', 'attribute', 'plain'][code % 7]
    if kind == 'v1':
        e = properties.ValidationError('one', _error_tuples=tuples(1, str(code)))
    elif kind == 'v3':
        e = properties.ValidationError('three', _error_tuples=tuples(3, str(code)))
    else:
        e = dict(value=ValueError, key=KeyError, type=TypeError, attribute=AttributeError, plain=Plain)[kind](code)
    FAILED.setdefault(code, e)
    raise e


FAILED = {}
KEYS = ['n', 's', 'items', 'v', 'old', 'fixed', 'boss', 'computed', 'attr', 'plain', 'held', 'unknown', '_secret']


def keyword(r, k):
    if k in ('n', 'old'):
        return r.choice([0, 3, 10, 11, -1, 'x', 2.5])
    if k == 's':
        return r.choice(['', 'word', 5, None])
    if k == 'items':
        return r.choice([[], [1, 2], [1, 'x'], 5, 'no'])
    if k in ('v', 'attr'):
        return r.choice([1, 2, 3] + [100 + 7 * r.randint(1, 9) + i for i in range(7)])
    if k == 'boss':
        return r.choice([properties.HasProperties(), 5])
    return r.choice([1, 2])


def model(kwargs):
    """Expected log, gathered error descriptions, first other error kind and what escapes."""
    log, errs, other, escape, values = [], [], None, None, dict(n=None, s='start', items=[], v=None, boss=None)
    for k, val in kwargs.items():
        if k in ('unknown', '_secret', 'computed'):
            escape = AttributeError
            break
        if k in ('n', 'old'):
            if val in (0, 3, 10):
                log.append(('n', val))
                values['n'] = val
            else:
                errs.append(('n', 'invalid'))
        elif k == 's':
            if isinstance(val, str):
                log.append(('s', val))
                values['s'] = val
            else:
                errs.append(('s', 'invalid'))
        elif k == 'items':
            if isinstance(val, list) and all(isinstance(x, int) for x in val):
                log.append(('items', val))
                values['items'] = val
            else:
                errs.append(('items', 'invalid'))
        elif k == 'boss':
            if val != 5:
                log.append(('boss', val))
                values['boss'] = val
            else:
                errs.append(('boss', 'invalid'))
        elif k in ('v', 'attr'):
            if k == 'attr':
                log.append(('attr', val))
            code = val % 7 if val >= 100 else None
            if code is None:
                if k == 'v':
                    log.append(('v', val))
                    values['v'] = val
            elif code in (0, 1):
                errs.extend([('v', 'bad')] * (3 if code else 1))
            elif code == 6:
                escape = Plain
                break
            elif other is None:
                other = val
        elif k == 'fixed':
            if other is None:
                other = 'fixed'
        elif k in ('plain', 'held'):
            pass
    return log, errs, other, escape, values


@bounded('C10', INIT, trials=1500)
def real_classes():
    """Random keywords in random order on a class with every kind of attribute."""
    r = rng()
    ks = [k for k in KEYS if r.random() < (0.12 if k in ('unknown', '_secret', 'computed') else 0.45)]
    r.shuffle(ks)
    kwargs = {k: keyword(r, k) for k in ks}
    given = dict(kwargs)
    note('keywords', kwargs)
    log, errs, other, escape, values = model(kwargs)
    Built.log, Built.last = [], None
    FAILED.clear()
    err = inst = None
    try:
        inst = Built(**kwargs)
    except Exception as e:
        err = e
    check(kwargs == given, 'the keywords are not modified')
    got, last = Built.log, Built.last
    hooks = [e for e in got if e[0] == 'hook']
    check([e for e in got if e[0] != 'hook'] == log, 'keywords are assigned in order, through normal assignment', (got, log))
    if escape is not None:
        check(type(err) is escape, 'the error escapes', repr(err))
        check(not hooks, 'and the hook is not called')
    elif errs:
        check(isinstance(err, properties.ValidationError), 'one ValidationError', repr(err))
        check(len(err.error_tuples) == len(errs), 'with every error tuple once', (err.error_tuples, errs))
        for t, (prop, reason) in zip(err.error_tuples, errs):
            check(t.reason == reason and (t.prop == prop), 'in order', (err.error_tuples, errs))
        check(len(hooks) == 1 and hooks[0][1] == list(err.error_tuples) and got[-1] is hooks[0], 'the hook is called once, with them')
        for t in err.error_tuples:
            check(t.message in str(err), 'the message tells each of them')
    elif other is not None:
        if other == 'fixed':
            check(isinstance(err, AttributeError), 'an immutable property raises AttributeError')
        else:
            check(err is FAILED[other], 'the first other error is re-raised')
        check(not hooks, 'and the hook is not called')
    else:
        check(err is None, 'construction succeeds', repr(err))
        last = inst
        check(inst.n == values['n'] and inst.s == values['s'] and inst.items == values['items'] and
              inst.v == values['v'] and inst.fixed == 5 and inst.boss is values['boss'], 'every keyword is set')
        if 'plain' in kwargs:
            check(inst.plain == kwargs['plain'], 'plain attributes as well')
        check(inst.held == kwargs.get('held', 'held'), 'also those of the instance alone')
    if last is not None:
        # no bookkeeping is left: it can be validated, and later failures are reported on their own
        Built.log = []
        for p in ('n', 's', 'items', 'v', 'boss'):
            setattr(last, p, {'n': 1, 's': 'a', 'items': [1], 'v': 1, 'boss': properties.HasProperties()}[p])
        Built.log = []
        check(last.validate() is True, 'the instance can be validated')
        check('class validator' in Built.log, 'its validators run')
        try:
            last.n = 99
            fail('assignment validates as usual')
        except properties.ValidationError as e:
            check(len(e.error_tuples) == 1, 'later errors are reported on their own')


@bounded('C10', INIT, trials=200)
def nested_construction():
    """Each construction reports its own errors, also when nested or when the hook raises."""
    r = rng()
    seen = []

    class Inner(properties.HasProperties):
        _REGISTRY = dict()
        a = properties.Integer('a')
        b = properties.Integer('b')

        def _error_hook(self, error_tuples):
            seen.append(('inner', len(error_tuples)))

    class Outer(properties.HasProperties):
        _REGISTRY = dict()
        one = properties.Instance('one', Inner)
        two = properties.Instance('two', Inner)
        c = properties.Integer('c')

        def _error_hook(self, error_tuples):
            seen.append(('outer', len(error_tuples)))
            seen.append(self)
            if boom:
                raise Plain('hook')
    boom = r.random() < 0.3
    bad = {k: r.random() < 0.5 for k in ('a', 'b', 'c')}
    note('bad', (bad, boom))
    spec = dict(a='x' if bad['a'] else 1, b='x' if bad['b'] else 1)
    err = inst = None
    try:
        inst = Outer(one=dict(spec), two=dict(spec), c='x' if bad['c'] else 1)
    except Exception as e:
        err = e
    inner = bad['a'] + bad['b']
    outer = 2 * (1 if inner else 0) + bad['c']
    check(len([s for s in seen if s == ('inner', inner)]) == (2 if inner else 0), 'inner hooks see their own errors', seen)
    if outer:
        check([s[1] for s in seen if isinstance(s, tuple) and s[0] == 'outer'] == [outer], 'one outer hook call', (seen, outer))
        inst = seen[-1]
        check(isinstance(err, Plain if boom else properties.ValidationError), 'the error is raised', repr(err))
    else:
        check(err is None, 'construction succeeds', repr(err))
        check(inst.one.a == 1 and inst.two.b == 1, 'every value is set')
    inst.one, inst.two, inst.c = Inner(a=1, b=1), Inner(a=2, b=2), 5
    check(inst.c == 5 and inst.validate() is True, 'the instance is usable afterwards')
