"""C03: listeners_disabled contexts."""
import properties
from properties import undefined, handlers
from properties.handlers import listeners_disabled, validators_disabled, observers_disabled
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

T = ['properties.handlers:listeners_disabled.__init__', 'properties.handlers:listeners_disabled.__enter__',
     'properties.handlers:listeners_disabled.__exit__', 'properties.handlers:listeners_disabled.disable_type',
     'properties.handlers:_get_listeners']
ALL = ['validate', 'observe_set', 'observe_change']


class Quiet(object):
    """A listener that only reports that it was called."""

    def func(self, instance, change):
        log(change['mode'])


class Probe(Owner):
    x = properties.Property('an unconstrained property')


def active():
    """The listener types called by an assignment now."""
    inst = new_instance(Probe, _backend={}, _listeners={'x': {m: [abstract(Quiet, m)] for m in ALL}})
    clear_trace()
    inst.x = 1
    out = []
    for e in trace():
        out.append(e[0])
    return out


def is_disabled(mode):
    return mode not in active()


def agrees(called, off, label):
    for m in ALL:
        check((m in called) == (m not in off), label)


def requested(kind):
    return {'all': ALL, 'validate': ['validate'], 'set': ['observe_set'], 'change': ['observe_change'],
            'observers': ['observe_set', 'observe_change'], 'validators': ['validate'],
            'pair': ['validate', 'observe_set'], 'own set': ['validate', 'observe_set'], 'three': ALL, 'empty': []}[kind]


def make(kind):
    if kind == 'all':
        return listeners_disabled()
    if kind == 'observers':
        return observers_disabled()
    if kind == 'validators':
        return validators_disabled()
    if kind == 'pair':
        return listeners_disabled(('validate', 'observe_set'))
    if kind == 'three':
        return listeners_disabled(['observe_change', 'validate', 'observe_set'])
    if kind == 'own set':
        types = {'validate', 'observe_set'}
        cm = listeners_disabled(types)
        types.clear()
        return cm
    if kind == 'empty':
        return listeners_disabled([])
    return listeners_disabled(requested(kind)[0])


SOME = ['all', 'validate', 'set', 'observers', 'own set', 'empty']
KINDS = ['all', 'validate', 'set', 'change', 'observers', 'validators', 'pair', 'own set', 'three', 'empty']


def initial():
    """An arbitrary set of types disabled by an enclosing context (entered; the caller leaves it)."""
    q = []
    for m in ALL:
        if any_bool('outer ' + m):
            q.append(m)
    cm = listeners_disabled(q)
    cm.__enter__()
    return cm, q


class Boom(Exception):
    pass


class Bang(BaseException):
    """An exception that is not an Exception, like GeneratorExit or KeyboardInterrupt."""


@contract('C03', T, trials=400)
def one_context():
    """From any enclosing state: inside exactly the requested types plus those already disabled; after, as before."""
    cm0, outer = initial()
    try:
        kind = choose('context', KINDS)
        cm = make(kind)
        raises = choose('body raises', [None, Boom, Bang, KeyboardInterrupt, GeneratorExit, StopIteration])
        inside = []
        err = None
        try:
            with cm:
                inside = active()
                if raises is not None:
                    raise raises()
        except BaseException as e:
            err = e
        check(err is None if raises is None else type(err) is raises, 'exceptions of the body propagate')
        agrees(inside, outer + requested(kind), 'exactly the requested and enclosing types')
        agrees(active(), outer, 'afterwards exactly the enclosing types')
    finally:
        cm0.__exit__(None, None, None)
    check(len(active()) == 3, 'in the end nothing is disabled')


@contract('C03', T, trials=600, bound='two nested contexts, from any enclosing state (so any nesting, by induction)')
def nested():
    """Two contexts, or the same context object twice, nested."""
    cm0, outer = initial()
    try:
        k1 = choose('first', SOME)
        k2 = choose('second', SOME + ['same object'])
        a = make(k1)
        b = a if k2 == 'same object' else make(k2)
        r2 = requested(k1 if k2 == 'same object' else k2)
        raises = any_bool('inner body raises')
        a.__enter__()
        try:
            with b:
                agrees(active(), outer + requested(k1) + r2, 'both are in force')
                if raises:
                    raise Boom()
        except Boom:
            pass
        agrees(active(), outer + requested(k1), 'leaving the inner restores the outer')
        a.__exit__(None, None, None)
        agrees(active(), outer, 'leaving the outer restores what was before')
        # the same object may be used again
        with a:
            agrees(active(), outer + requested(k1), 'a context can be used again')
        agrees(active(), outer, 'and restores again')
    finally:
        cm0.__exit__(None, None, None)
    check(len(active()) == 3, 'in the end nothing is disabled')


@contract('C03', T, trials=200)
def property_validation_stays():
    """Property validation is never disabled; listeners not requested are still called."""
    cm0, outer = initial()
    try:
        cm = make(choose('context', KINDS))
        cls = abs_class(Owner, {'x': abs_prop('x')})
        inst = new_instance(cls, _backend={}, _listeners={'x': {m: [abstract(AbsListener, m)] for m in ALL}})
        prop = abs_prop('x')
        v = any_value('value')
        assume(v is not undefined)
        with cm:
            on = active()
            err = None
            clear_trace()
            try:
                prop.get_property().fset(inst, v)
            except Exception as e:
                err = e
        if uf_bool('rejects', prop, v):
            check(err is uf_exc('rejection', prop, v), 'invalid values are still rejected')
            check('x' not in inst._backend, 'and not stored')
        elif err is None:
            check(same(inst._backend.get('x', undefined), uf_value('validated', prop, v)), 'values are still validated')
        for e in trace():
            check(e[5] in on, 'no disabled listener is called')
        if not uf_bool('rejects', prop, v) and err is None:
            n = 0
            for m in ALL:
                if m in on and (m != 'observe_change' or uf_value('validated', prop, v) is not undefined):
                    n = n + 1
            check(len(trace()) == n, 'all others are called')
    finally:
        cm0.__exit__(None, None, None)
    check(len(active()) == 3, 'in the end nothing is disabled')


@contract('C03', T, trials=300)
def unknown_types():
    """Unknown listener types are rejected with TypeError, whatever the collection."""
    a, b = any_value('a'), any_value('b')
    shape = choose('shape', ['single', 'list', 'tuple'])
    arg = a if shape == 'single' else [a, b] if shape == 'list' else (a, b)
    if shape == 'single':
        assume(not isinstance(a, (set, list, tuple, dict)))
        ok = a is None or (isinstance(a, str) and a in ALL)
    else:
        assume(isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)))
        ok = isinstance(a, str) and isinstance(b, str) and a in ALL and b in ALL
    try:
        cm = listeners_disabled(arg)
    except TypeError:
        check(not ok, 'known types are accepted')
        check(len(active()) == 3, 'nothing is disabled by creating')
        return
    check(ok, 'unknown types are rejected')
    check(len(active()) == 3, 'nothing is disabled by creating')


@bounded('C03', T, trials=400)
def histories():
    """Random well-nested histories with re-entered contexts and exceptions, on a real class."""
    r = rng()
    calls = []

    class Watched(Owner):
        x = properties.Integer('x')

        @properties.validator('x')
        def _v(self, change):
            calls.append('validate')

        @properties.observer('x')
        def _s(self, change):
            calls.append('observe_set')

        @properties.observer('x', change_only=True)
        def _c(self, change):
            calls.append('observe_change')
    w = Watched()
    pool = [(make(k), set(requested(k))) for k in [r.choice(KINDS) for _ in range(3)]]
    ctr = [0]
    hist = []

    def probe(off):
        calls[:] = []
        ctr[0] += 1
        w.x = ctr[0]
        check(set(calls) == set(ALL) - off and len(calls) == len(set(calls)), 'exactly the others are called',
              (hist, calls, off))
        try:
            w.x = 'not an integer'
            fail('property validation stays', hist)
        except ValueError:
            pass
        check(w.x == ctr[0], 'the value is kept')

    def level(off, depth):
        for _ in range(r.randint(1, 2)):
            probe(off)
            if depth > 4:
                return
            cm, req = r.choice(pool)
            boom = r.random() < 0.4
            hist.append(('enter', sorted(req), boom))
            try:
                with cm:
                    probe(off | req)
                    level(off | req, depth + 1)
                    if boom:
                        raise Boom()
            except Boom:
                check(boom, 'only the raised exceptions')
            hist.append('leave')
            probe(off)
    level(set(), 0)
    note('history', hist)
    probe(set())
