"""C02: registration of listeners (the notification protocol itself is proved in c01)."""
import properties
from properties import undefined
from properties import handlers
from contracts.c01 import *      # noqa
from contracts.stubs import *    # noqa

REG = ['properties.handlers:_set_listener', 'properties.handlers:observer', 'properties.handlers:validator',
       'properties.handlers:Observer.names', 'properties.handlers:Observer.mode']
MODES = ['validate', 'observe_change', 'observe_set']


def on_instance(kind, inst, names, func):
    if kind == 'validate':
        return properties.validator(inst, names, func)
    if kind == 'observe_change':
        return properties.observer(inst, names, func, change_only=True)
    return properties.observer(inst, names, func)


@contract('C02', REG, trials=200, bound='registration for one or two names at a time (strings and lists unbounded)')
def register_on_instance():
    """Registering a callback appends it for exactly its names, in its phase, on that instance."""
    n1, n2, other = any_str('n1'), any_str('n2'), any_str('other')
    assume(n1 != n2)
    assume(other != n1)
    assume(other != n2)
    before = {}
    for m in MODES:
        before[m] = mkseq('registered ' + m, lambda i: abstract(AbsListener, 'old', (i,)))
    table = {}
    known = any_bool('n1 has listeners')
    if known:
        table[n1] = {m: list(before[m]) for m in MODES}
    table[other] = {m: [abstract(AbsListener, 'o' + m)] for m in MODES}
    keep = table[other]
    inst = new_instance(Owner, _listeners=table, _backend={})
    kind = choose('kind', MODES)
    names = choose('names', ['one', 'list', 'tuple'])
    func = abstract(AbsListener, 'new')
    arg = n1 if names == 'one' else [n1, n2] if names == 'list' else (n1, n2)
    obs = on_instance(kind, inst, arg, func)
    check(obs.func is func, 'the callback is registered')
    check(obs.mode == kind, 'in its phase')
    for m in MODES:
        old = before[m] if known else []
        check(same_seq(inst._listeners[n1][m], old + [obs] if m == kind else old),
              'it comes after the earlier ones, in its phase only')
    if names == 'one':
        check(n2 not in inst._listeners, 'no other name gets a listener')
    else:
        for m in MODES:
            check(same_seq(inst._listeners[n2][m], [obs] if m == kind else []), 'each of the names gets it')
    check(inst._listeners[other] is keep, 'other names keep their listeners')
    for m in MODES:
        check(same_seq(keep[m], [abstract(AbsListener, 'o' + m)]), 'unchanged')


@contract('C02', REG, trials=200)
def observer_arguments():
    """Names must be strings and modes must be known."""
    a, b = any_value('a'), any_value('b')
    assume(not isinstance(a, (tuple, list, set)))
    names = choose('names', [[a, b], (a, b), [a], [], a])
    ok = True
    for x in (names if isinstance(names, (list, tuple, set)) else [names]):
        if not isinstance(x, str):
            ok = False
    if names is properties.everything:
        ok = True
    try:
        obs = handlers.Observer(names, 'validate')
    except TypeError:
        check(not ok, 'strings are accepted as names')
        return
    check(ok, 'only strings are accepted as names')
    if names is properties.everything:
        check(obs.names is names, 'everything is kept')
    mode = any_str('mode')
    try:
        obs.mode = mode
    except TypeError:
        check(mode not in MODES, 'the three modes are accepted')
        check(obs.mode == 'validate', 'a refused mode changes nothing')
    else:
        check(mode in MODES, 'only the three modes are accepted')
        check(obs.mode == mode, 'the mode is stored')


@bounded('C02', REG + SET, trials=300)
def registrations_everywhere():
    """Class level and instance level, everything, inheritance, overriding, two instances."""
    r = rng()
    calls = []

    def cb(tag):
        def fire(self, change):
            calls.append((tag, id(self), change['name'], change['mode']))
        return fire

    def deco(arg, mode):
        return properties.validator(arg) if mode == 'validate' else \
            properties.observer(arg, change_only=mode == 'observe_change')
    names = ['a', 'b', 'c']
    extra = ['d']

    def pick(ns):
        k = r.random()
        if k < 0.3:
            return properties.everything
        if k < 0.5:
            return r.choice(ns)
        return r.choice([list, tuple, set])(r.sample(ns, r.randint(1, len(ns))))

    def expand(arg, ns):
        return ns if arg is properties.everything else [arg] if isinstance(arg, str) else list(arg)
    body = {n: properties.Integer('doc') for n in names}
    body['g'] = properties.GettableProperty('doc')
    base_regs, sub_regs = {}, {}
    for i in range(r.randint(0, 4)):
        arg, mode = pick(names), r.choice(MODES)
        body['h%d' % i] = deco(arg, mode)(cb('base%d' % i))
        base_regs['h%d' % i] = ('base%d' % i, arg, mode)
    note('base', [(k, str(v)) for k, v in base_regs.items()])
    base = type('RegBase', (Owner,), body)
    body2 = {'d': properties.Integer('doc')}
    for i in range(r.randint(0, 3)):
        key = r.choice(['h%d' % r.randint(0, 3), 'k%d' % i])
        if r.random() < 0.25 and key in base_regs:
            if r.random() < 0.5:
                body2[key] = cb('plain')
                sub_regs[key] = None
                continue
        arg, mode = pick(names + extra), r.choice(MODES)
        body2[key] = deco(arg, mode)(cb('sub' + key))
        sub_regs[key] = ('sub' + key, arg, mode)
    sub = type('RegSub', (base,), body2)
    for cls, regs, ns in ((base, [base_regs], names), (sub, [base_regs, sub_regs], names + extra)):
        table = {}
        for d in regs:
            for k, v in d.items():
                table.pop(k, None) if v is None else None
                if v is not None:
                    table[k] = v
        one, two = cls(), cls()
        inst_regs = []
        for i in range(r.randint(0, 3)):
            arg, mode = pick(ns), r.choice(MODES)
            on_instance(mode, one, arg, cb('inst%d' % i))
            inst_regs.append(('inst%d' % i, arg, mode))
        for inst, more in ((one, inst_regs), (two, [])):
            for n in ns:
                for value in (1, 1, 2):
                    prev = inst._backend.get(n, undefined)
                    calls[:] = []
                    setattr(inst, n, value)
                    for mode in MODES:
                        exp = sorted(t for t, arg, m in list(table.values()) + more
                                     if m == mode and n in expand(arg, ns + ['g']))
                        if mode == 'observe_change' and prev is not undefined and prev == value:
                            exp = []
                        got = [c for c in calls if c[3] == mode]
                        check(sorted(c[0] for c in got) == exp, 'exactly the callbacks registered for the name',
                              (cls.__name__, n, mode, got, exp, table))
                        check(all(c[1] == id(inst) and c[2] == n for c in got), 'with that instance and that name')
                        # instance-level ones in registration order, after the class-level ones
                        tail = [t for t, arg, m in more if m == mode and n in expand(arg, ns + ['g'])]
                        if exp and tail:
                            check([c[0] for c in got][-len(tail):] == tail, 'in registration order', (got, tail))
                    phases = [MODES.index(c[3]) for c in calls]
                    check(phases == sorted(phases), 'validate, then observe_change, then observe_set', calls)
    check('g' not in names, 'ok')


@bounded('C02', SET, trials=150)
def nested_changes():
    """A callback that sets another property: complete inner protocol inside the outer one."""
    r = rng()
    ev = []
    mode = r.choice(MODES)

    def rec(self, change):
        ev.append((change['name'], change['mode'], self._backend.get(change['name'], undefined)))
    body = {n: properties.Integer('doc') for n in 'ab'}
    for i, m in enumerate(MODES):
        for n in 'ab':
            d = properties.validator(n) if m == 'validate' else properties.observer(n, change_only=m != 'observe_set')
            body['r_%s_%s' % (n, m)] = d(rec)

    def inner(self, change):
        if change['name'] == 'a':
            self.b = change['value'] + 10
    d = properties.validator('a') if mode == 'validate' else properties.observer('a', change_only=mode != 'observe_set')
    body['inner'] = d(inner)
    x = type('Nested', (Owner,), body)()
    v = r.randint(0, 3)
    note('mode', (mode, v))
    x.a = v
    check(x.a == v and x.b == v + 10, 'both are set')
    for n, val in (('a', v), ('b', v + 10)):
        mine = [e for e in ev if e[0] == n]
        check([e[1] for e in mine] == MODES, 'each phase once', ev)
        check(mine[0][2] is undefined and mine[1][2] == val and mine[2][2] == val, 'stored after validation', ev)
    check([e[1] for e in ev if e[0] == 'b'] == MODES, 'the inner protocol is complete')
    i = [k for k, e in enumerate(ev) if e[0] == 'b']
    check(i == list(range(i[0], i[0] + 3)), 'and not interleaved', ev)


class AbsTamperer(object):
    """A callback that overwrites the entries of the dict it is given."""

    def func(self, instance, change):
        log(self, change['name'], change['previous'], change['value'], change['mode'])
        if uf_bool('tampers', self):
            change['name'] = uf_value('name', self)
            change['previous'] = uf_value('previous', self)
            change['mode'] = uf_value('mode', self)


@contract('C02', SET, trials=400, slow=True)
def tampering_callbacks():
    """What a callback does to its change dict does not reach the later phases."""
    a, b, c = abstract(AbsTamperer, 'a'), abstract(AbsTamperer, 'b'), abstract(AbsTamperer, 'c')
    p = abs_prop('x')
    old = choose('old', [undefined, uf_value('old', 'x')])
    new = any_value('new')
    assume(new is not undefined)
    assume(not uf_bool('rejects', p, new))
    inst = new_instance(abs_class(Owner, {'x': p}), _backend={} if old is undefined else {'x': old},
                        _listeners={'x': {'validate': [a], 'observe_change': [b], 'observe_set': [c]}})
    stored = uf_value('validated', p, new)
    assume(stored is not undefined)
    clear_trace()
    p.get_property().fset(inst, new)
    want = [(a, 'x', old, stored, 'validate')]
    if old is undefined or not p.equal(old, stored):
        want.append((b, 'x', old, stored, 'observe_change'))
    want.append((c, 'x', old, stored, 'observe_set'))
    check(same_seq(trace(), want), 'each phase gets the name, the previous value and its mode')
    check(same(inst._backend.get('x', undefined), stored), 'and the value is stored')
