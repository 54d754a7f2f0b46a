B_ = 'basic.py'
C = 'base/containers.py'
SEEDS = [
dict(id='c02-same-object', property='C02',
 needs='an observer or validator that runs when a value is assigned that is the very object already stored',
 what='assigning the stored object again skips the validators and observe_set as well as observe_change',
 edits=[('base/base.py', """        if prev is utils.undefined and change['value'] is utils.undefined:
            pass""", """        if prev is change['value']:
            pass""")],
 demo='''
nan = float('nan')
calls = []
class Odd(properties.Property):
    def equal(self, a, b):
        return a == b
class A(properties.HasProperties):
    x = Odd('x', required=False)
    @properties.observer('x', change_only=True)
    def _seen(self, change):
        calls.append(change['value'])
a = A(x=nan)
a.x = nan
assert len(calls) == 2, calls
'''),
dict(id='c03-setter-alias', property='C03',
 needs='a set of listener types that its owner changes after the context manager was made',
 what='listeners_disabled keeps the set it is given instead of a copy',
 edits=[('handlers.py', "        value = set(value)\n", "        value = value if isinstance(value, set) else set(value)\n")],
 demo='''
calls = []
class A(properties.HasProperties):
    x = properties.Property('x', required=False)
    @properties.observer('x')
    def _seen(self, change):
        calls.append(change['value'])
types = {'observe_set', 'observe_change'}
ctx = properties.listeners_disabled(types)
types.clear()
with ctx:
    A().x = 1
assert not calls, calls
'''),
dict(id='c05-empty-case', property='C05',
 needs='a change_case that is falsy and not None',
 what='any falsy change_case is accepted',
 edits=[(B_, "        if value not in (None, 'upper', 'lower'):", "        if value and value not in (None, 'upper', 'lower'):")],
 demo='''
for bad in ('', 0, False):
    try:
        properties.String('s', change_case=bad)
    except TypeError:
        continue
    raise AssertionError(bad)
'''),
dict(id='c07-min-length-empty', property='C07',
 needs='a stored list that becomes empty without being validated, with a min_length',
 what='the lower bound of the length is not asserted for empty containers',
 edits=[(C, "(self.min_length is not None and len(value) < self.min_length)",
         "(self.min_length and value and len(value) < self.min_length)")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', min_length=1)
a = A(x=[1])
a.x.pop()
try:
    ok = a.validate()
except ValueError:
    ok = False
assert not ok
'''),
dict(id='c08-registry-name', property='C08',
 needs='two container classes of the same name',
 what='the observable classes are registered by name',
 edits=[(C, """    if container_class in OBSERVABLE_REGISTRY:
        observable_class = OBSERVABLE_REGISTRY[container_class]""",
         """    names = {c.__name__: v for c, v in OBSERVABLE_REGISTRY.items()}
    if container_class.__name__ in names:
        observable_class = names[container_class.__name__]""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', coerce=False, observe_mutations=True)
One = type('Box', (list,), {'kind': 1})
Two = type('Box', (list,), {'kind': 2})
a, b = A(x=One([1])), A(x=Two([1]))
assert a.x.kind == 1 and b.x.kind == 2, (a.x.kind, b.x.kind)
'''),
dict(id='c08-detach-first', property='C08',
 needs='a mutation of the stored container whose result is rejected, and another mutation after it',
 what='the container is detached before the assignment, so it is no longer observed when the assignment fails',
 edits=[(C, """            setattr(self._instance, self._name, copy)
            self._instance = None
            self._name = ''""", """            instance, attribute = self._instance, self._name
            self._instance, self._name = None, ''
            setattr(instance, attribute, copy)""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer('i'), observe_mutations=True)
a = A(x=[1])
for _ in range(2):
    try:
        a.x.append('no')
    except ValueError:
        continue
    raise AssertionError('accepted')
assert a.x == [1], a.x
'''),
dict(id='c08-setdefault', property='C08',
 needs='setdefault on an observed dictionary',
 what='setdefault is not observed',
 edits=[(C, "        'remove', 'reverse', 'setdefault', 'sort',", "        'remove', 'reverse', 'sort',")],
 demo='''
class A(properties.HasProperties):
    x = properties.Dictionary('x', value_prop=properties.Integer('i'), observe_mutations=True)
a = A(x={'a': 1})
try:
    a.x.setdefault('b', 'no')
except ValueError:
    pass
assert a.x == {'a': 1}, a.x
'''),
dict(id='c09-second-false', property='C09',
 needs='a validator of the class that returns False when something else has failed before it',
 what='a validator that returns False is reported only if it is the first failure',
 edits=[('base/base.py', "                    if valid is False:", "                    if valid is False and not self._validation_error_tuples:")],
 demo='''
seen = []
class A(properties.HasProperties):
    @properties.validator
    def one(self):
        return False
    @properties.validator
    def two(self):
        return False
    def _error_hook(self, tuples):
        seen.extend(tuples)
try:
    A().validate()
except ValueError:
    pass
assert len(seen) == 2, seen
'''),
dict(id='c09-unset-optional', property='C09',
 needs='an optional property without a value whose assert_valid fails',
 what='validate skips optional properties that have no value',
 edits=[('base/base.py', """        for key, prop in iteritems(self._props):
            try:
                value = self._get(key)""", """        for key, prop in iteritems(self._props):
            if key not in self._backend and not getattr(prop, 'required', False):
                continue
            try:
                value = self._get(key)""")],
 demo='''
class Odd(properties.Property):
    def assert_valid(self, instance, value=None):
        return False
class A(properties.HasProperties):
    x = Odd('x', required=False)
try:
    ok = A().validate()
except ValueError:
    ok = False
assert not ok
'''),
dict(id='c10-hook-mixed', property='C10',
 needs='keywords of which one fails validation and another one raises a different error',
 what='the error hook is not called if there was an error other than of validation as well',
 edits=[('base/base.py', """                self._error_hook(self._validation_error_tuples)
                msgs = ['Initialization failed:']""", """                if self._non_validation_error is None:
                    self._error_hook(self._validation_error_tuples)
                msgs = ['Initialization failed:']""")],
 demo='''
seen = []
class A(properties.HasProperties):
    x = properties.Integer('x')
    @property
    def y(self):
        return 1
    def _error_hook(self, tuples):
        seen.append([t.prop for t in tuples])
try:
    A(y=1, x='no')
except Exception:
    pass
assert seen == [['x']], seen
'''),
dict(id='c10-private-keyword', property='C10',
 needs='an unknown keyword that starts with an underscore',
 what='unknown private keywords are set as attributes',
 edits=[('base/base.py', "                if not prop and not hasattr(self, key):",
         "                if not prop and not hasattr(self, key) and key[:1] != '_':")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
try:
    A(x=1, _unknown=1)
except AttributeError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c12-strict-trusted', property='C12',
 needs='a trusted and strict deserialization of the dictionary of a subclass',
 what='the class in the dictionary is ignored by strict deserialization',
 edits=[('base/base.py', "        if trusted and input_cls_name in cls._REGISTRY:", "        if trusted and not strict and input_cls_name in cls._REGISTRY:")],
 demo='''
class Base(properties.HasProperties):
    _REGISTRY = {}
    x = properties.Integer('x')
class Sub(Base):
    pass
data = Sub(x=1).serialize()
try:
    got = Base.deserialize(data, trusted=True, strict=True)
except ValueError as err:
    raise AssertionError(err)
assert type(got) is Sub, got
'''),
dict(id='c13-negative-infinity', property='C13',
 needs='the float -inf',
 what='infinite floats lose their sign when they are serialized',
 edits=[(B_, "            return str(value)\n        return value\n", "            return 'nan' if math.isnan(value) else 'inf'\n        return value\n")],
 demo='''
class A(properties.HasProperties):
    x = properties.Float('x')
a = A(x=float('-inf'))
assert A.deserialize(a.serialize()).x == float('-inf')
'''),
dict(id='c14-dynamic-ignored', property='C14',
 needs='instances that differ only in what a dynamic property computes',
 what='dynamic properties are ignored when instances are compared',
 edits=[('base/base.py', """        for prop in itervalues(value_a._props):
            if isinstance(prop, basic.Renamed):""", """        for prop in itervalues(value_a._props):
            if isinstance(prop, basic.DynamicProperty):
                continue
            if isinstance(prop, basic.Renamed):""")],
 demo='''
class A(properties.HasProperties):
    @properties.Integer('x')
    def x(self):
        return self.hidden
a, b = A(), A()
a.hidden, b.hidden = 1, 2
assert not properties.equal(a, b)
'''),
dict(id='c17-keyword-none', property='C17',
 needs='a dictionary with a None value for a class that is constructed with it',
 what='None values are dropped from the keywords an instance is constructed with',
 edits=[('base/instance.py', "                return self.instance_class(**value)",
         "                return self.instance_class(**{k: v for k, v in value.items() if v is not None})")],
 demo='''
class Plain(object):
    def __init__(self, x=5):
        self.x = x
class A(properties.HasProperties):
    i = properties.Instance('i', Plain)
assert A(i={'x': None}).i.x is None
'''),
dict(id='c18-delete-none', property='C18',
 needs='deleting a dynamic property whose value is None',
 what='the deleter is called only if there is a value',
 edits=[(B_, "            scope.del_func(self)", "            if scope.func(self) is not None:\n                scope.del_func(self)")],
 demo='''
calls = []
class A(properties.HasProperties):
    @properties.Integer('x')
    def x(self):
        return None
    @x.deleter
    def x(self):
        calls.append(self)
a = A()
del a.x
assert calls == [a]
'''),
dict(id='c24-no-mode', property='C24',
 needs='a file whose mode is empty or None',
 what='the mode is not checked if it is falsy',
 edits=[(B_, "        if not hasattr(value, 'mode') or self.valid_modes is None:", "        if not getattr(value, 'mode', None) or self.valid_modes is None:")],
 demo='''
class F(object):
    closed, mode = False, None
    def read(self): pass
    def seek(self): pass
    def close(self): pass
p = properties.File('f', mode='rb')
try:
    p.validate(None, F())
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
]
