"""C01: assignment stores validated values; C02: who is notified, when, with what."""
import properties
from properties import undefined
from contracts.stubs import (Owner, AbsProp, AbsListener, AbsReplacer, abs_prop, listeners, state)
from pyvc.api import *          # noqa

SET = ['properties.base.base:HasProperties._set', 'properties.base.base:HasProperties._notify',
       'properties.base.base:HasProperties._get', 'properties.basic:Property.get_property',
       'properties.handlers:_get_listeners']


def run_listeners(ls, inst, name, prev, cur, mode, stored):
    """The calls the protocol demands for one phase: (events, value afterwards, error or None)."""
    events = []
    err = None
    for l in ls:
        events.append((l, inst, name, prev, cur, mode, stored))
        if isinstance(l, AbsReplacer):
            cur = uf_value('replacement', l, cur)
        elif uf_rare('listener raises', l, cur, mode):
            err = uf_exc('listener error', l, cur, mode)
            break
    return events, cur, err


def expected(inst, prop, table, name, prev, value):
    """The whole protocol for storing an already validated value."""
    ev, cur, err = run_listeners(table['validate'], inst, name, prev, value, 'validate', prev)
    if err is not None:
        return ev, prev, err
    changed = not (prev is undefined and cur is undefined) and (
        prev is undefined or cur is undefined or not prop.equal(prev, cur))
    if changed:
        ev2, _, err = run_listeners(table['observe_change'], inst, name, prev, cur, 'observe_change', cur)
        ev = ev + ev2
        if err is not None:
            return ev, cur, err
    ev3, _, err = run_listeners(table['observe_set'], inst, name, prev, cur, 'observe_set', cur)
    return ev + ev3, cur, err


def arbitrary(validators, observers):
    """Any instance with any property 'name', any values and any listeners."""
    props = mkdict('props', abs_prop, ['x', 'y', 'z'])
    cls = abs_class(Owner, props)
    name = any_key('name', props)
    other = any_str('other')
    assume(other != name)
    backend = mkdict('backend', lambda k: uf_value('stored', k), ['x', 'y', 'z'])
    table = {'validate': [], 'observe_change': [], 'observe_set': []}
    reg = {other: {'validate': [abstract(AbsListener, 'other v')], 'observe_change': [abstract(AbsListener, 'other c')],
                   'observe_set': [abstract(AbsListener, 'other s')]}}
    assume(backend.get(name) is not undefined)
    if validators:
        table['validate'] = listeners('validate', validators == 'replacing')
    if observers == 'both' or observers == 'observe_change':
        table['observe_change'] = listeners('observe_change', False)
    if observers == 'both' or observers == 'observe_set':
        table['observe_set'] = listeners('observe_set', False)
    if validators or observers or any_bool('known'):
        reg[name] = table
    inst = new_instance(cls, _backend=backend, _listeners=reg)
    return inst, props[name], name, table


def protocol(inst, prop, table, name, value, how):
    before = snapshot(inst._backend)
    prev = state(inst, name)
    clear_trace()
    err = None
    try:
        if how == 'set':
            setattr(inst, name, value)
        else:
            delattr(inst, name)
    except Exception as e:
        err = e
    k = any_str('any other key')
    assume(k != name)
    check(same(state(inst, k), before.get(k, undefined)), 'no other value is touched')
    if value is not undefined and uf_bool('rejects', prop, value):
        check(err is uf_exc('rejection', prop, value), 'the rejection propagates')
        check(same_seq(trace(), []), 'nobody is called for a rejected value')
        check(same(state(inst, name), prev), 'a rejected assignment changes no value')
        return
    v = value if value is undefined else uf_value('validated', prop, value)
    ev, stored, e = expected(inst, prop, table, name, prev, v)
    check(same_seq(trace(), ev), 'exactly the protocol calls, in order')
    check(err is e, 'exactly the first listener error propagates')
    check(same(state(inst, name), stored), 'the validated value is stored')
    check(inst._backend.get(name) is not undefined, 'undefined is never stored')
    got = getattr(inst, name)
    check(same(got, None if stored is undefined else stored), 'and read back')


@contract(['C01', 'C02'], SET, trials=500, slow=True)
def assign_validators():
    """Assigning any value to any property of any state, with any validate listeners."""
    inst, prop, name, table = arbitrary('plain', None)
    protocol(inst, prop, table, name, any_value('value'), 'set')


@contract(['C01', 'C02'], SET, trials=500, slow=True)
def assign_replacing_validators():
    """The same, where one of the validate listeners replaces the value."""
    inst, prop, name, table = arbitrary('replacing', None)
    protocol(inst, prop, table, name, any_value('value'), 'set')


@contract(['C01', 'C02'], SET, trials=500, slow=True)
def assign_change_observers():
    """Assigning any value to any property of any state, with any observe_change listeners."""
    inst, prop, name, table = arbitrary(None, 'observe_change')
    protocol(inst, prop, table, name, any_value('value'), 'set')


@contract(['C01', 'C02'], SET, trials=500, slow=True)
def assign_set_observers():
    """Assigning any value to any property of any state, with any observe_set listeners."""
    inst, prop, name, table = arbitrary(None, 'observe_set')
    protocol(inst, prop, table, name, any_value('value'), 'set')


@contract(['C01', 'C02'], SET, trials=300)
def assign_unobserved():
    """Assigning without any listener for the name."""
    inst, prop, name, table = arbitrary(None, None)
    protocol(inst, prop, table, name, any_value('value'), 'set')


@contract(['C01', 'C02'], SET, trials=300, slow=True)
def delete():
    """Deleting any property."""
    inst, prop, name, table = arbitrary(None, 'both')
    protocol(inst, prop, table, name, undefined, 'del')


@contract(['C01', 'C02'], SET, trials=800, heavy=True)
def assign_all():
    """The whole protocol, all phases together."""
    inst, prop, name, table = arbitrary(choose('validators', ['plain', 'replacing']), 'both')
    value = any_value('value')
    if any_bool('delete'):
        protocol(inst, prop, table, name, undefined, 'del')
    else:
        protocol(inst, prop, table, name, value, 'set')


@contract(['C01', 'C02'], ['properties.basic:GettableProperty.get_property'], trials=200)
def immutable():
    """Gettable properties reject assignment and deletion."""
    p = properties.GettableProperty('doc')
    p.name = 'fixed'
    cls = abs_class(Owner, {'fixed': p})
    inst = new_instance(cls, _backend={'fixed': any_value('stored'), 'other': 1}, _listeners={
        'fixed': {'validate': [abstract(AbsListener, 'v')], 'observe_change': [abstract(AbsListener, 'c')],
                  'observe_set': [abstract(AbsListener, 's')]}})
    before = snapshot(inst._backend)
    prop = p.get_property()
    check(prop.fset is None and prop.fdel is None, 'there is no setter and no deleter')
    check(same(prop.fget(inst), before['fixed']), 'the stored value is read')
    check(same_dict(inst._backend, before), 'reading changes nothing')
    check(same_seq(trace(), []), 'and calls nobody')


# ---------------------------------------------------------------- concrete: real properties, real classes
PROPS = [
    lambda: properties.Integer('i', min=-5, max=50),
    lambda: properties.Float('f', cast=True),
    lambda: properties.String('s', strip=' ', change_case='upper'),
    lambda: properties.List('l', properties.Integer('i')),
    lambda: properties.Dictionary('d', value_prop=properties.Float('f')),
    lambda: properties.Union('u', [properties.Integer('i'), properties.String('s')]),
    lambda: properties.Color('c'),
    lambda: properties.Tuple('t', properties.String('s'), max_length=2),
    lambda: properties.Set('t', properties.String('s'), coerce=True),
    lambda: properties.StringChoice('sc', {'a': ['x', 'y'], 'b': 'z'}),
    lambda: properties.Boolean('b'),
    lambda: properties.Vector3('v', length=2),
    lambda: properties.Instance('i', Owner),
]
POOL = [0, 1, 1.0, 3, 60, -5, '7', ' a ', 'a', 'X', 'up', 'red', [1, 2], [1, 'x'], ('a',), ('a', 'b', 'c'), {'a'},
        {'a': 1}, {'a': 'q'}, {1}, None, True, [0, 0, 1], [1., 2., 3.], 'zero', [], {}, (), 5.0000000001]


class Boom(Exception):
    pass


@bounded(['C01', 'C02'], SET, trials=500)
def sequences():
    """Random histories on real classes against a reference model, all kinds of registrations."""
    r = rng()
    calls = []
    plan = {}

    def cb(tag):
        def fire(self, change):
            stored = dict(self._backend)
            calls.append((tag, id(self), change['name'], change['previous'], change['value'], change['mode'],
                          stored.get(change['name'], undefined)))
            act = plan.get(tag)
            if act == 'raise':
                raise Boom(tag)
            if act is not None and change['mode'] == 'validate':
                change['value'] = act[0]
        return fire
    names = ['pa', 'pb', 'pc']
    body = {}
    props = {}
    for n in names:
        props[n] = body[n] = r.choice(PROPS)()
    regs = []          # (tag, names, mode) in registration order, class level first
    for i in range(r.randint(0, 3)):
        ns = r.choice([names[:1], names[1:], names, 'everything'])
        mode = r.choice(['validate', 'observe_set', 'observe_change'])
        arg = properties.everything if ns == 'everything' else ns
        deco = properties.validator(arg) if mode == 'validate' else \
            properties.observer(arg, change_only=mode == 'observe_change')
        tag = 'm%d' % i
        body[tag] = deco(cb(tag))
        regs.append((tag, names if ns == 'everything' else ns, mode))
    base = type('SeqBase', (Owner,), body)
    cls = type('SeqSub', (base,), {}) if r.random() < 0.5 else base
    one, two = cls(), cls()
    calls[:] = []
    iregs = {id(one): list(regs), id(two): list(regs)}
    note('props', {n: type(p).__name__ for n, p in props.items()})
    hist = []
    for step in range(r.randint(1, 8)):
        inst = r.choice([one, two])
        act = r.random()
        if act < 0.2:
            ns = r.choice([names[:1], names[1:], names, 'everything', 'pc'])
            mode = r.choice(['validate', 'observe_set', 'observe_change'])
            tag = 'i%d' % step
            arg = properties.everything if ns == 'everything' else ns
            if mode == 'validate':
                properties.validator(inst, arg, cb(tag))
            else:
                properties.observer(inst, arg, cb(tag), change_only=mode == 'observe_change')
            iregs[id(inst)].append((tag, names if ns == 'everything' else [ns] if ns == 'pc' else ns, mode))
            hist.append(('register', tag, ns, mode))
            continue
        tags = [t for t, _, _ in iregs[id(inst)]]
        plan.clear()
        if tags and r.random() < 0.25:
            plan[r.choice(tags)] = r.choice(['raise', (r.choice([1, 'a', undefined]),)])
        n = r.choice(names)
        value = undefined if act < 0.35 else r.choice(POOL)
        how = 'del' if value is undefined and r.random() < 0.5 else 'set'
        hist.append((how, n, value, dict(plan)))
        note('history', list(hist))
        before1, before2 = dict(one._backend), dict(two._backend)
        before = dict(inst._backend)
        prev = before.get(n, undefined)
        calls[:] = []
        err = None
        try:
            if how == 'del':
                delattr(inst, n)
            else:
                setattr(inst, n, value)
        except (Exception) as e:
            err = e
        got = list(calls)
        # the protocol
        exp, exp_err, cur = [], None, undefined
        rejected = None
        if value is not undefined:
            try:
                cur = props[n].validate(inst, value)
            except ValueError as e:
                rejected = e
        if rejected is not None:
            check(isinstance(err, ValueError), 'the rejection propagates', (hist, err))
            check(got == [], 'nobody is called for a rejected value')
            check(one._backend == before1 and two._backend == before2, 'a rejected assignment changes no value')
            continue
        phases = []
        for mode in ('validate', 'observe_change', 'observe_set'):
            if mode == 'observe_change':
                # everything validated: stored now
                if prev is undefined and cur is undefined:
                    continue
                if not (prev is undefined or cur is undefined or not props[n].equal(prev, cur)):
                    continue
            for tag, ns, m in iregs[id(inst)]:
                if m != mode or n not in ns:
                    continue
                stored = prev if mode == 'validate' else cur
                exp.append((tag, id(inst), n, prev, cur, mode, stored))
                if plan.get(tag) == 'raise':
                    exp_err = tag
                    break
                if plan.get(tag) is not None and mode == 'validate':
                    cur = plan[tag][0]
            if exp_err:
                phases.append(mode)
                break
        check((err is None) == (exp_err is None), 'exactly the listener errors propagate', (hist, err, exp_err))
        if exp_err:
            check(isinstance(err, Boom) and str(err) == exp_err, 'the first listener error propagates', (hist, err))
        check(len(got) == len(exp), 'exactly the protocol calls', (hist, got, exp))
        for g, x in zip(got, exp):
            check(g[:3] == x[:3] and g[5] == x[5], 'the calls, in order', (hist, got, exp))
            for i in (3, 4, 6):
                check(alike(g[i], x[i]), 'with previous, new and stored value', (hist, g, x))
        final = prev if exp_err and phases == ['validate'] else cur
        now = dict(inst._backend)
        check((n in now) == (final is not undefined), 'the stored names', (hist, now, final))
        if final is not undefined:
            check(alike(now[n], final), 'the validated value is stored', (hist, now[n], final))
            check(getattr(inst, n) is now[n], 'and read back')
        else:
            check(getattr(inst, n) is None, 'an unset property reads as None')
        for k in before:
            if k != n:
                check(now[k] is before[k], 'other values are untouched', hist)
        check(set(now) | {n} == set(before) | {n}, 'no other name appears', (hist, now))
        x, bx = (two, before2) if inst is one else (one, before1)
        check(all(x._backend.get(k) is v for k, v in bx.items()) and len(bx) == len(x._backend),
              'the other instance is untouched', hist)


def alike(a, b):
    """Equal validated values (two runs of validate give equal, not identical, containers)."""
    if a is b:
        return True
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.array_equal(a, b)
    if isinstance(a, Owner) and isinstance(b, Owner):
        return properties.equal(a, b)
    return a == b and isinstance(a, type(b).__mro__[-2] if len(type(b).__mro__) > 1 else object)


@bounded('C01', ['properties.basic:GettableProperty.get_property', 'properties.basic:Property.get_property'], trials=60)
def immutable_real():
    """Every Gettable property of a real class rejects assignment and deletion, silently for others."""
    r = rng()
    body = {'g': properties.GettableProperty('g', default=r.choice([1, 'a', [1]])),
            'u': properties.Uuid('u'), 'p': properties.Integer('p', default=3)}
    cls = type('Imm', (Owner,), body)
    x = cls()
    seen = []
    properties.observer(x, properties.everything, lambda s, c: seen.append(c))
    before = dict(x._backend)
    for n in ('g', 'u'):
        for v in (r.choice(POOL), getattr(x, n), undefined, None):
            try:
                setattr(x, n, v)
            except AttributeError:
                continue
            fail('assignment is rejected', (n, v))
        try:
            delattr(x, n)
            fail('deletion is rejected', n)
        except AttributeError:
            pass
        try:
            cls(**{n: r.choice([1, 2])})
            fail('construction with it is rejected', n)
        except AttributeError:
            pass
    check(x._backend == before and seen == [], 'nothing changes and nobody is called')
    x.p = 4
    check(x.p == 4 and len(seen) == 1, 'other properties can be set')
    del x.p
    check(x.p is None, 'a deleted property reads as None')
