"""C18: dynamic and renamed properties redirect without storing anything."""
import warnings
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

DYN = ['properties.basic:DynamicProperty.get_property', 'properties.basic:DynamicProperty.validate',
       'properties.basic:DynamicProperty.setter', 'properties.basic:DynamicProperty.deleter']
REN = ['properties.basic:Renamed.get_property', 'properties.basic:Renamed.display_warning']
NAMES = ['a', 'b', 'c']
COUNT = [0]


def dynamic(result, setter, deleter):
    """A dynamic property with any prop, whose function returns the given value (None: any)."""
    prop = abs_prop('prop')

    def x(self):
        log('get', self)
        COUNT[0] = COUNT[0] + 1
        if uf_rare('getter raises', COUNT[0]):
            raise uf_exc('getter error', COUNT[0])
        if result == 'none':
            return None
        if result == 'undefined':
            return undefined
        return uf_value('computed', COUNT[0])
    p = properties.basic.DynamicProperty('doc', x, prop)
    if setter:
        def x(self, value):
            log('set', self, value)
            if uf_rare('setter raises', value):
                raise uf_exc('setter error', value)
            return uf_value('what the setter returns', value)
        check(p.setter(x) is p, 'registering a setter gives the property')
    if deleter:
        def x(self):
            log('delete', self)
            if uf_rare('deleter raises', 0):
                raise uf_exc('deleter error', 0)
        check(p.deleter(x) is p, 'registering a deleter gives the property')
    return p, prop


def owner_of(p, name):
    """Any instance with that property, and any stored values."""
    p.name = name
    cls = abs_class(Owner, {name: p})
    backend = mkdict('backend', lambda k: uf_value('stored', k), NAMES)
    assume(name not in backend)
    return new_instance(cls, _backend=backend, _listeners={})


def untouched(inst, before):
    check(same_dict(inst._backend, before), 'nothing is stored')


@contract('C18', DYN, trials=600)
def reading():
    """Reading a dynamic property computes, validates, and never stores; twice computes twice."""
    COUNT[0] = 0
    result = choose('result', ['value', 'none', 'undefined'])
    p, prop = dynamic(result, False, False)
    inst = owner_of(p, 'x')
    before = snapshot(inst._backend)
    for i in range(2):
        clear_trace()
        got, err = None, None
        try:
            got = inst.x
        except Exception as e:
            err = e
        check(same_seq(trace(), [('get', inst)]), 'the function is called on the instance, once for each access')
        if uf_rare('getter raises', i + 1):
            check(err is uf_exc('getter error', i + 1), 'errors of the function propagate')
        elif result != 'value':
            check(err is None and got is None, 'None and undefined read as None')
        else:
            v = uf_value('computed', i + 1)
            if v is None or v is undefined:
                check(err is None and got is None, 'None and undefined read as None')
            elif uf_bool('rejects', prop, v):
                check(err is uf_exc('rejection', prop, v), 'an invalid value is rejected')
            else:
                check(err is None, 'a valid value is not rejected')
                check(same(got, uf_value('validated', prop, v)), 'the value validated by the prop is read')
        untouched(inst, before)


def shown(value, **kwargs):
    return uf_value('shown', value)


class Ruled(AbsProp):
    """serialize and deserialize by contract, with registered functions or not."""

    def serialize(self, value, **kwargs):
        return uf_value('serialized', self, value, kwargs.get('extra', 'absent'))


@contract('C18', DYN + ['properties.basic:GettableProperty.__call__', 'properties.basic:DynamicProperty.__init__',
                        'properties.basic:DynamicProperty.equal', 'properties.basic:DynamicProperty.serialize',
                        'properties.basic:DynamicProperty.serializer', 'properties.basic:DynamicProperty.deserializer'], trials=400)
def made_by_decorator():
    """A property used as decorator: a dynamic property with its documentation, that validates, compares and converts as it does."""
    prop = abstract(Ruled, 'prop', ('prop',), prop_fields)
    prop.serializer = shown
    prop.deserializer = shown

    def area(self):
        log('get', self)
        return uf_value('computed', 0)
    p = prop(area)
    check(type(p) is properties.basic.DynamicProperty, 'it gives a dynamic property')
    check(p.func is area and p.prop is prop and p.name == 'area', 'of the function, with its name')
    check(p.doc == prop.doc, 'with the documentation of the property')
    check(p.set_func is None and p.del_func is None, 'that cannot be set or deleted')
    check(same_seq(trace(), []), 'the function is not called')
    a, b = any_value('a'), any_value('b')
    check(p.equal(a, b) == (uf_bool('equal', prop, a, b) and uf_bool('equal', prop, b, a)), 'it compares as the property')
    check(p.serializer is prop.serializer and p.deserializer is prop.deserializer and p.serializer is not None, 'it has its serializer and deserializer')
    check(same(p.serialize(a, extra=b), uf_value('serialized', prop, a, b)), 'and serializes as the property')
    try:
        got = p.validate(None, a)
        check(not uf_bool('rejects', prop, a) and same(got, uf_value('validated', prop, a)), 'it validates as the property')
    except Exception as e:
        check(uf_bool('rejects', prop, a) and e is uf_exc('rejection', prop, a), 'and rejects as the property')


@contract('C18', DYN, trials=600)
def assigning():
    """Assigning calls the setter with the validated value, once, or is rejected."""
    COUNT[0] = 0
    setter = any_bool('setter')
    p, prop = dynamic('value', setter, any_bool('deleter'))
    inst = owner_of(p, 'x')
    before = snapshot(inst._backend)
    v = any_value('value')
    clear_trace()
    err = None
    try:
        inst.x = v
    except Exception as e:
        err = e
    calls = trace()
    if not setter:
        check(isinstance(err, AttributeError), 'without a setter it is an AttributeError')
        check(same_seq(calls, []), 'and nothing is called')
    elif uf_bool('rejects', prop, v):
        check(err is uf_exc('rejection', prop, v), 'an invalid value is rejected')
        check(same_seq(calls, []), 'and the setter is not called')
    else:
        w = uf_value('validated', prop, v)
        check(same_seq(calls, [('set', inst, w)]), 'the setter is called once with the validated value')
        if uf_rare('setter raises', w):
            check(err is uf_exc('setter error', w), 'errors of the setter propagate')
        else:
            check(err is None, 'and nothing else is raised')
    untouched(inst, before)


@contract('C18', DYN, trials=400)
def deleting():
    """Deleting calls the deleter, once, or is rejected."""
    COUNT[0] = 0
    deleter = any_bool('deleter')
    p, prop = dynamic('value', any_bool('setter'), deleter)
    inst = owner_of(p, 'x')
    before = snapshot(inst._backend)
    clear_trace()
    err = None
    try:
        del inst.x
    except Exception as e:
        err = e
    if not deleter:
        check(isinstance(err, AttributeError), 'without a deleter it is an AttributeError')
        check(same_seq(trace(), []), 'and nothing is called')
    else:
        check(same_seq(trace(), [('delete', inst)]), 'the deleter is called once')
        if uf_rare('deleter raises', 0):
            check(err is uf_exc('deleter error', 0), 'errors of the deleter propagate')
        else:
            check(err is None, 'and nothing else is raised')
    untouched(inst, before)


# ---------------------------------------------------------------- renamed properties
class Target(AbsProp):
    """The property that was renamed to: access by contract."""

    def get_property(self):
        scope = self

        def fget(self):
            log('get', self, scope)
            if uf_rare('reading fails', scope):
                raise uf_exc('reading error', scope)
            return uf_value('current', scope)

        def fset(self, value):
            log('set', self, scope, value)
            if uf_rare('assignment fails', scope, value):
                raise uf_exc('assignment error', scope, value)

        def fdel(self):
            log('delete', self, scope)
            if uf_rare('deletion fails', scope):
                raise uf_exc('deletion error', scope)
        return property(fget=fget, fset=fset, fdel=fdel)


def target_prop(key):
    return abstract(Target, 'target', (key,), prop_fields)


@contract('C18', REN, trials=900)
def renaming():
    """Reading, assigning and deleting under the old name do the same under the new one."""
    old = 'old'
    target = target_prop('new')
    bystander = target_prop('bystander')
    p = properties.Renamed('new', warn=any_bool('warn'))
    p.name = old
    backend = mkdict('backend', lambda k: uf_value('stored', k), NAMES)
    assume(old not in backend)
    inst = new_instance(abs_class(Owner, {'old': p, 'new': target, 'bystander': bystander}), _backend=backend, _listeners={})
    before = snapshot(inst._backend)
    v = any_value('value')
    how = choose('access', ['get', 'set', 'delete'])
    clear_trace()
    got, err = None, None
    try:
        if how == 'get':
            got = getattr(inst, old)
        elif how == 'set':
            setattr(inst, old, v)
        else:
            delattr(inst, old)
    except Exception as e:
        err = e
    untouched(inst, before)
    if how == 'get':
        check(same_seq(trace(), [('get', inst, target)]), 'the new name is read, once')
        want = uf_exc('reading error', target) if uf_rare('reading fails', target) else None
        if want is None:
            check(same(got, uf_value('current', target)), 'with the same result')
    elif how == 'set':
        check(same_seq(trace(), [('set', inst, target, v)]), 'the same value is assigned to the new name, once')
        want = uf_exc('assignment error', target, v) if uf_rare('assignment fails', target, v) else None
    else:
        check(same_seq(trace(), [('delete', inst, target)]), 'the new name is deleted, once')
        want = uf_exc('deletion error', target) if uf_rare('deletion fails', target) else None
    check(err is want, 'with the same error')


# ---------------------------------------------------------------- real classes
def real_class(r, warn):
    calls = []

    class Shape(properties.HasProperties):
        _REGISTRY = dict()
        x = properties.Float('x', required=False)
        y = properties.Float('y', required=False)
        limited = properties.Integer('limited', min=0, max=9, required=False)
        old_x = properties.Renamed('x', warn=warn)
        older_x = properties.Renamed('old_x', warn=warn)
        old_limited = properties.Renamed('limited', warn=warn)
        old_pos = properties.Renamed('pos', warn=warn)

        @properties.List('position', properties.Float('coordinate'))
        def pos(self):
            calls.append('get pos')
            if self.x is None:
                return self.nothing
            return [self.x, self.y]

        @pos.setter
        def pos(self, value):
            calls.append(('set pos', list(value), type(value).__name__))
            self.x, self.y = value

        @pos.deleter
        def pos(self):
            calls.append('del pos')
            del self.x

        @properties.Integer('total', max=9)
        def total(self):
            calls.append('get total')
            return (self.limited or 0) * 2

        @properties.observer(properties.everything)
        def seen(self, change):
            calls.append((change['mode'], change['name'], change['previous'], change['value']))
    Shape.nothing = r.choice([None, undefined])
    return Shape, calls


@bounded('C18', DYN + REN, trials=1500)
def real_histories():
    """Random accesses of a real class with dynamic and renamed properties, against what was stored."""
    r = rng()
    warn = r.random() < 0.5
    Shape, calls = real_class(r, warn)
    obj = Shape()
    model = {}
    steps = []
    for _ in range(r.randint(1, 8)):
        name = r.choice(['x', 'y', 'limited', 'old_x', 'older_x', 'old_limited', 'old_pos', 'pos', 'total'])
        how = r.choice(['get', 'set', 'set', 'delete'])
        v = r.choice([[1.0, 2.0], [3, 4], (5.0, 6.0), 7.0, 8, 'bad', [1.0], None, undefined]) if how == 'set' else None
        steps.append((name, how, v))
        note('steps', list(steps))
        real = {'old_x': 'x', 'older_x': 'x', 'old_limited': 'limited', 'old_pos': 'pos'}.get(name, name)
        depth = {'old_x': 1, 'older_x': 2, 'old_limited': 1, 'old_pos': 1}.get(name, 0) if warn else 0
        before = dict(obj._backend)
        del calls[:]
        got, err = None, None
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            try:
                if how == 'get':
                    got = getattr(obj, name)
                elif how == 'set':
                    setattr(obj, name, v)
                else:
                    delattr(obj, name)
            except Exception as e:
                err = e
        ours = [w for w in caught if issubclass(w.category, Warning)]
        check(len(ours) == depth, 'one warning for each renamed access if warn is set', (len(ours), depth))
        check(all(w.category is FutureWarning for w in ours), 'they are FutureWarnings')
        if ours:
            check(name in str(ours[0].message), 'and name the old property')
        del ours, caught
        if how == 'get':
            check(obj._backend == before, 'reading stores nothing')
            if real == 'total':
                w = (model.get('limited') or 0) * 2
                check((got == w and err is None) if w <= 9 else isinstance(err, ValueError), 'the computed value, validated', (got, err))
                check(calls == ['get total'], 'computed once')
            elif real == 'pos':
                if model.get('x') is None:
                    check(got is None and err is None, 'nothing reads as None')
                elif model.get('y') is None:
                    check(isinstance(err, ValueError), 'an invalid result is rejected')
                else:
                    check(err is None and got == [model['x'], model['y']], 'the computed value', (got, err))
                check(calls == ['get pos'], 'computed once')
            else:
                check(err is None and got == model.get(real), 'the stored value')
                check(calls == [], 'nothing is called')
        elif how == 'set':
            if real == 'total':
                check(isinstance(err, AttributeError) and calls == [], 'there is no setter')
            elif real == 'pos':
                if isinstance(v, (list, )) and all(isinstance(i, (int, float)) for i in v):
                    check(calls[0] == ('set pos', [float(i) for i in v], 'list'), 'the setter has the validated value', calls)
                    if len(v) == 2:
                        model['x'], model['y'] = float(v[0]), float(v[1])
                        check(err is None, 'no error')
                    else:
                        check(isinstance(err, ValueError), 'the error of the setter')
                else:
                    check(isinstance(err, ValueError) and calls == [], 'an invalid value is rejected before the setter', (err, calls))
            else:
                ok = v is undefined or isinstance(v, (int, float)) and (real != 'limited' or 0 <= v <= 9)
                check(ok == (err is None), 'accepted as under the new name', (real, v, err))
                if ok:
                    check(calls[-1][:2] == ('observe_set', real) if calls else False, 'observed under the new name', calls)
                    if v is undefined:
                        model.pop(real, None)
                    else:
                        model[real] = float(v) if real != 'limited' else int(v)
                else:
                    check(isinstance(err, ValueError) and calls == [], 'rejected')
        else:
            if real == 'total':
                check(isinstance(err, AttributeError) and calls == [], 'there is no deleter')
            else:
                check(err is None, 'deleted')
                if real == 'pos':
                    check(calls[0] == 'del pos', 'the deleter is called')
                model.pop('x' if real == 'pos' else real, None)
        check(obj._backend == {k: v for k, v in model.items()}, 'only the real properties are stored', (dict(obj._backend), model))
        check(not any(c[1] in ('pos', 'total', 'old_x', 'older_x', 'old_pos', 'old_limited')
                      for c in calls if isinstance(c, tuple) and c[0].startswith('observe')), 'no notification under a redirected name')


@bounded('C18', DYN, trials=300)
def inherited_and_overridden():
    """Dynamic properties of base classes, setters on subclasses, and construction by keyword."""
    r = rng()
    calls = []

    class Base(properties.HasProperties):
        _REGISTRY = dict()
        a = properties.Integer('a', default=1)
        old_a = properties.Renamed('a', warn=False)

        @properties.Integer('double')
        def double(self):
            calls.append('base')
            return self.a * 2

        @double.setter
        def double(self, value):
            self.a = value // 2

    class Sub(Base):
        if r.random() < 0.5:
            over = True

            @properties.Integer('triple')
            def double(self):
                calls.append('sub')
                return self.a * 3
        else:
            over = False
    n = r.randint(-5, 5)
    note('input', (Sub.over, n))
    try:
        Sub(double=4)
        check(False, 'dynamic properties are not set by construction')
    except AttributeError:
        pass
    s, b = Sub(a=n), Base(old_a=n)
    check(s.double == n * (3 if Sub.over else 2), 'the function of the class is used')
    check(b.double == n * 2, 'and of the base class')
    try:
        s.double = 2 * n + 2
        check(not Sub.over, 'an overriding property has no setter')
        check(s.a == n + 1 and b.a == n, 'on that instance')
    except AttributeError:
        check(Sub.over, 'an inherited property has its setter')
        check(s.a == n, 'nothing is set')
    s.old_a = 9
    check(s.a == 9 and s.old_a == 9 and b.a == n, 'renamed on that instance')
    check(set(s._backend) == {'a'} and set(b._backend) == {'a'}, 'nothing is stored under the names')
    check('double' not in s.serialize(include_class=False) and 'old_a' not in s.serialize(), 'nor serialized')
    check(s.validate(), 'and the instance is valid')
