"""C25: recursion guards are released on every exit."""
import properties
from contracts.c14 import Explosive, Ring
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa
from properties.link import directional_link

GUARDS = ['properties.base.base:HasProperties.validate', 'properties.base.base:HasProperties.serialize',
          'properties.base.base:HasProperties.__init__', 'properties.base.base:equal',
          'properties.link:directional_link._update', 'properties.utils:stop_recursion_with.__call__']


class Boom(Exception):
    pass


def boom():
    """Something to raise, also what is no Exception."""
    return choose('raised', [Boom('b'), ValueError('v'), KeyError('k'), properties.ValidationError('invalid'),
                             properties.SelfReferenceError('s'), KeyboardInterrupt(), GeneratorExit()])


class Actor(object):
    """Acts inside an operation: calls the operation again, then perhaps raises."""

    def __init__(self, action, raises):
        self.action, self.raises = action, raises

    def act(self, inst):
        log('called')
        if self.action is not None:
            self.action(inst)
        if self.raises is not None:
            raise self.raises


class ActingProp(AbsProp):
    actor = None

    def serialize(self, value, **kwargs):
        self.actor.act(value)
        return uf_value('serialized', value)

    def equal(self, value_a, value_b):
        self.actor.act(value_a)
        return uf_bool('equal', value_a, value_b)

    def get_property(self):
        scope = self

        def fget(self):
            return self._backend.get('x', None)

        def fset(self, value):
            scope.actor.act(self)
            self._backend['x'] = value
        return property(fget=fget, fset=fset)


class ActingValidator(object):
    def __init__(self, actor):
        self.actor = actor

    def func(self, inst):
        self.actor.act(inst)


@contract('C25', GUARDS, trials=200)
def validate_guard():
    """A validation in progress counts as valid; when it is over, however it ended, the next runs in full."""
    def again(inst):
        check(inst.validate() is True, 'a recursive validate is True')
    e = boom() if any_bool('raises') else None
    actor = Actor(again, e)
    inst = new_instance(abs_class(Owner, {}, _class_validators={'v': ActingValidator(actor)}))
    for i in range(2):
        clear_trace()
        try:
            result = inst.validate()
            check(e is None and result is True, 'errors are not lost')
        except BaseException as x:
            check(e is not None, 'no other error')
            check(x is e or isinstance(x, properties.ValidationError) and isinstance(e, properties.ValidationError),
                  'the error is raised')
        check(same_seq(trace(), [('called',)]), 'the validators run, once')
    actor.raises = None
    check(inst.validate() is True, 'afterwards it validates as usual')


@contract('C25', GUARDS, trials=200)
def serialize_guard():
    """A recursive serialize raises SelfReferenceError; afterwards the instance can be serialized again."""
    holder = []

    def again(value):
        for j in range(2):
            try:
                holder[0].serialize()
                fail('a recursive serialize raises, every time')
            except properties.SelfReferenceError:
                pass
    e = boom() if any_bool('raises') else None
    p = ActingProp('doc', name='x')
    p.actor = Actor(again, e)
    v = uf_value('stored', 'x')
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={'x': v})
    holder.append(inst)
    for i in range(2):
        clear_trace()
        try:
            inst.serialize()
            check(e is None, 'errors are not lost')
        except BaseException as x:
            check(x is e, 'the error is raised')
        check(same_seq(trace(), [('called',)]), 'the property is serialized, once')
    p.actor.raises = None
    s = uf_value('serialized', v)
    want = {'__class__': 'Owner'}
    if s is not None:
        want['x'] = s
    check(same_dict(inst.serialize(), want), 'afterwards it serializes as usual')


class Plain25(properties.HasProperties):
    _REGISTRY = dict()


@contract('C25', GUARDS, trials=200)
def equal_guard():
    """A recursive comparison is False; afterwards the instances compare as usual."""
    holder = []

    def again(value):
        check(properties.equal(holder[0], holder[1]) is False, 'a recursive comparison is False')
        check(properties.equal(other, holder[0]) is False, 'another comparison is not affected')
        check(properties.equal(holder[0], holder[1]) is False, 'a recursive comparison is False, again')
        check(properties.equal(holder[0], other) is False, 'whatever it is compared with')
    other = new_instance(Plain25)
    e = boom() if any_bool('raises') else None
    p = ActingProp('doc', name='x')
    p.actor = Actor(again, e)
    cls = abs_class(Owner, {'x': p})
    va, vb = uf_value('a', 0), uf_value('b', 0)
    assume(va is not None)
    assume(vb is not None)
    a, b = new_instance(cls, _backend={'x': va}), new_instance(cls, _backend={'x': vb})
    holder.append(a)
    holder.append(b)
    for i in range(2):
        clear_trace()
        try:
            check(properties.equal(a, b) is uf_bool('equal', va, vb), 'the result is right')
            check(e is None, 'errors are not lost')
        except (Exception, KeyboardInterrupt, GeneratorExit) as x:
            check(x is e, 'the error is raised')
        check(same_seq(trace(), [('called',)]), 'the values are compared, once')
    p.actor.raises = None
    p.actor.action = None
    check(properties.equal(a, a) is True, 'it equals itself')
    check(properties.equal(a, b) is uf_bool('equal', va, vb), 'afterwards they compare as usual')


@contract('C25', GUARDS, trials=200)
def init_guard():
    """While it is constructed an instance is not validated; afterwards it is, also if construction failed."""
    def again(inst):
        check(inst.validate() is True, 'validation during construction does nothing')
    e = boom() if any_bool('raises') else None
    p = ActingProp('doc', name='x')
    p.actor = Actor(again, e)
    check_it = ActingValidator(Actor(None, None))
    inst = new_instance(abs_class(Owner, {'x': p}, _class_validators={'v': check_it}))
    clear_trace()
    try:
        inst.__init__(x=uf_value('new', 0))
        check(e is None, 'errors are not lost')
    except BaseException as x:
        check(e is not None, 'no other error')
        check(x is e or isinstance(x, properties.ValidationError) and isinstance(e, properties.ValidationError),
              'the error is raised')
    check(same_seq(trace(), [('called',)]), 'the keyword is assigned')
    clear_trace()
    check(inst.validate() is True, 'it validates afterwards')
    check(same_seq(trace(), [('called',)]), 'running its validators')


class Ends(Owner):
    """Ends of a link: setting b acts."""

    x = properties.Property('x', required=False)

    def __setattr__(self, name, value):
        if name == 'target':
            self.actor.act(self)
        object.__setattr__(self, name, value)


@contract('C25', GUARDS, trials=200)
def link_guard():
    """An update never re-enters its link, and an update that fails leaves the link usable."""
    holder = []

    def again(inst):
        holder[0]._update()
    e = boom() if any_bool('raises') else None
    actor = Actor(again, e)
    a = new_instance(Ends, _backend={'x': uf_value('source', 0)}, actor=actor, target=None)
    b = new_instance(Ends, _backend={}, actor=actor, target=None)
    lk = directional_link((a, 'x'), (b, 'target'))
    holder.append(lk)
    for i in range(2):
        clear_trace()
        try:
            lk._update()
            check(e is None, 'errors are not lost')
        except BaseException as x:
            check(x is e, 'the error is raised')
        check(same_seq(trace(), [('called',)]), 'the target is set, once')
    actor.raises = None
    lk._update()
    check(same(b.target, uf_value('source', 0)), 'afterwards it updates as usual')


class Recursive(object):
    """An object with a method that calls itself."""

    def __init__(self, name):
        self.name = name


@contract('C25', GUARDS, trials=200)
def stop_recursion():
    """A recursive call on the same object gives the backup; other objects, and later calls, are not affected."""
    backup = choose('backup', ['value', 'function', 'exception', 'function of an exception'])
    x0 = Boom('backup')
    b = {'value': uf_value('backup', 0), 'function': lambda self, arg: ('backup', self, arg),
         'exception': x0, 'function of an exception': lambda self, arg: x0}[backup]
    assume(backup != 'value' or not callable(b))
    assume(not isinstance(b, Exception) or backup == 'exception')
    deco = properties.stop_recursion_with(b)
    e = boom() if any_bool('raises') else None
    one, two = Recursive('one'), Recursive('two')
    arg = uf_value('arg', 0)
    seen = []

    def method(self, arg, depth=0):
        log('runs', self)
        if self is one:
            try:
                got = wrapped(one, arg)
                check(backup in ('value', 'function'), 'a backup exception is raised')
                if backup == 'value':
                    check(same(got, b), 'a recursive call gives the backup')
                else:
                    check(got[0] == 'backup' and got[1] is one and same(got[2], arg), 'or calls it with the arguments')
            except Boom as x:
                check(backup not in ('value', 'function') and x is x0, 'the backup exception')
            check(same(wrapped(two, arg), uf_value('result', arg)), 'another object is not affected')
        if self is one and e is not None:
            raise e
        return uf_value('result', arg)
    wrapped = deco(method)
    for i in range(2):
        clear_trace()
        try:
            check(same(wrapped(one, arg), uf_value('result', arg)), 'the result of the method')
            check(e is None, 'errors are not lost')
        except (Exception, KeyboardInterrupt, GeneratorExit) as x:
            check(x is e, 'the error is raised')
        check(same_seq(trace(), [('runs', one), ('runs', two)]), 'the method runs once for each object')


class Mood(object):
    """What the properties of Moody do, and the operation that meets itself."""

    def __init__(self):
        self.fault, self.where, self.again, self.seen = None, None, None, []

    def at(self, place, who):
        if self.again == place and who not in [w for w, _ in self.seen]:
            self.seen.append((who, None))
            self.seen[-1] = (who, self.reenter(who))
        if self.where == place and self.fault is not None:
            raise self.fault

    def reenter(self, who):
        return None


MOOD = [Mood()]


class MoodyProp(properties.Integer):
    def validate(self, instance, value):
        MOOD[0].at('set', instance)
        return super(MoodyProp, self).validate(instance, value)

    def assert_valid(self, instance, value=None):
        MOOD[0].at('assert', instance)
        return super(MoodyProp, self).assert_valid(instance, value)

    def serialize(self, value, **kwargs):
        MOOD[0].at('serialize', None)
        return super(MoodyProp, self).serialize(value, **kwargs)

    def equal(self, value_a, value_b):
        MOOD[0].at('equal', None)
        return super(MoodyProp, self).equal(value_a, value_b)


class Moody(properties.HasProperties):
    _REGISTRY = dict()
    num = MoodyProp('a number', required=False)
    child = properties.Instance('child', properties.HasProperties, required=False)
    kids = properties.List('kids', properties.Instance('kid', properties.HasProperties), required=False)
    table = properties.Dictionary('table', value_prop=properties.Instance('v', properties.HasProperties), required=False)
    either = properties.Union('either', [properties.String('s'), properties.Instance('i', properties.HasProperties)],
                              required=False)

    @properties.validator
    def _valid(self):
        MOOD[0].at('validator', self)

    @properties.observer('num')
    def _observed(self, change):
        MOOD[0].at('observer', self)


def outcome(f):
    try:
        return ('result', f())
    except BaseException as e:
        return ('raises', type(e), str(e))


@bounded('C25', GUARDS, trials=900)
def interrupted_operations():
    """Random object graphs, cycles included, on which operations fail midway: the next ones are not affected."""
    r = rng()
    MOOD[0] = quiet = Mood()

    def graph():
        ns = [Moody(num=i) for i in range(4)]
        for i, (c, ks, t, e) in enumerate(plan):
            if c is not None:
                ns[i].child = ns[c]
            if ks is not None:
                ns[i].kids = [ns[k] for k in ks]
            if t is not None:
                ns[i].table = {'k': ns[t]}
            if e is not None:
                ns[i].either = ns[e]
        return ns
    loops = r.random() < 0.5

    def pick(i, p):
        return r.randrange(0 if loops else i + 1, 4) if r.random() < p and (loops or i < 3) else None
    plan = [(pick(i, 0.5), r.choice([None, [k for k in (pick(i, 1), pick(i, 1)) if k is not None]]),
             pick(i, 0.3), pick(i, 0.3)) for i in range(4)]
    note('plan', plan)
    ns, twin = graph(), graph()
    ops = {
        'validate': (['assert', 'validator'], lambda g, i, j: g[i].validate()),
        'serialize': (['serialize'], lambda g, i, j: g[i].serialize(include_class=bool(i % 2))),
        'equal': (['equal'], lambda g, i, j: properties.equal(g[i], g[j])),
        'set': (['set', 'observer'], lambda g, i, j: setattr(g[i], 'num', 10 + j)),
    }

    def results(g):
        out = []
        for i in range(4):
            out.append((i, outcome(g[i].validate), outcome(g[i].serialize)))
            for j in range(4):
                out.append((i, j, outcome(lambda: properties.equal(g[i], g[j]))))
        return out
    before = results(twin)
    check(results(ns) == before, 'equal graphs behave alike')
    for _ in range(r.randint(1, 4)):
        op = r.choice(sorted(ops))
        i, j = r.randrange(4), r.randrange(4)
        m = Mood()
        m.fault = boom()
        m.where = r.choice(ops[op][0])
        MOOD[0] = m
        got = outcome(lambda: ops[op][1](ns, i, j))
        MOOD[0] = quiet
        note('step', (op, i, j, m.where, repr(m.fault), got[0]))
        if op == 'set':
            if m.where == 'set':
                check(got == ('raises', type(m.fault), str(m.fault)), 'the assignment fails', got)
            setattr(ns[i], 'num', i)
        check(results(ns) == before, 'what failed leaves no trace', (op, i, j, m.where, m.fault))
    # no matter how construction of an instance fails, or of others inside it
    m = MOOD[0] = Mood()
    m.fault, m.where = boom(), 'set'
    check(outcome(lambda: Moody(num=3)) [0] == 'raises', 'construction fails')
    MOOD[0] = quiet
    check(results(ns) == before, 'and leaves no trace')


@bounded('C25', GUARDS, trials=500)
def operations_within_operations():
    """Callbacks that run an operation on their own instance while it is in progress."""
    r = rng()
    seen = []
    inner = r.choice(['validate', 'serialize', 'equal'])
    fault = boom() if r.random() < 0.5 else None
    armed = [False]

    class Nested(properties.HasProperties):
        _REGISTRY = dict()
        x = properties.Integer('x', required=False)

        @properties.validator
        def _v(self):
            if armed[0]:
                seen.append(outcome({'validate': self.validate, 'serialize': self.serialize,
                                     'equal': lambda: properties.equal(self, self)}[inner]))
                if fault is not None:
                    raise fault

        @properties.observer('x')
        def _o(self, change):
            if armed[0]:
                seen.append(outcome(self.validate))

    a = Nested(x=1)
    want = {'validate': ('result', True), 'serialize': ('result', {'__class__': 'Nested', 'x': 1}),
            'equal': ('result', True)}
    armed[0] = True
    for _ in range(r.randint(1, 3)):
        del seen[:]
        got = outcome(a.validate)
        check(seen == [want[inner]], 'inside a validation', (inner, seen))
        check((got == ('result', True)) == (fault is None), 'the error is raised', got)
    del seen[:]
    a.x = 2
    if fault is None:
        check(len(seen) == 2 and seen[1] == ('result', True), 'an observer validates in full', seen)
    else:
        check(len(seen) == 2 and seen[1][0] == 'raises', 'an observer sees the error', seen)
    del seen[:]
    got = outcome(lambda: Nested(x=5))
    check(got[0] == 'result' and seen == [('result', True)], 'validation during construction does nothing', seen)
    armed[0] = False
    check(a.validate() is True and a.serialize() == {'__class__': 'Nested', 'x': 2}, 'afterwards')


@bounded('C25', GUARDS, trials=400)
def links_after_errors():
    """Links whose target rejects, or whose callbacks raise, still propagate the next change."""
    r = rng()
    armed = [None]

    class End(properties.HasProperties):
        _REGISTRY = dict()
        v = properties.Integer('v', required=False)
        w = properties.Integer('w', required=False)

        @properties.validator('v')
        def _v(self, change):
            if armed[0] is not None and self is ends[armed[0][0]]:
                raise armed[0][1]

        @properties.observer('v')
        def _o(self, change):
            if self.back is not None:
                self.back.v = self.v
    End.back = None
    ends = [End() for _ in range(3)]
    links = []
    both = r.random() < 0.5
    for i in range(2):
        if both:
            links.append(properties.link((ends[i], 'v'), (ends[i + 1], 'v')))
        else:
            links.append(directional_link((ends[i], 'v'), (ends[i + 1], 'v')))
    if r.random() < 0.3:
        ends[2].back = ends[0]
    for step in range(r.randint(1, 4)):
        who = r.choice([1, 2])
        fault = choose('fault %d' % step, [Boom('b'), ValueError('v'), properties.ValidationError('invalid'), KeyboardInterrupt()])
        armed[0] = (who, fault)
        start = r.choice([0, 2]) if both and who == 1 else 0
        got = outcome(lambda: setattr(ends[start], 'v', 100 + step))
        check(got[0] == 'raises', 'the error is raised', got)
        armed[0] = None
        start = r.choice([0, 1, 2]) if both else 0
        ends[start].v = 200 + step
        check([e.v for e in ends] == [200 + step] * 3, 'the next change is propagated', ([e.v for e in ends], both, start))
