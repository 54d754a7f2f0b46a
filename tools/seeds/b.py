SEEDS = [
dict(id='c05-alias-case', property='C05',
 needs='a case-sensitive StringChoice with aliases, given an alias in other case',
 what='aliases are compared ignoring case even when case_sensitive is set',
 edits=[('basic.py', """            test_val = val if self.case_sensitive else [_.upper() for _ in val]
            if test_value == test_key or test_value in test_val:
                return key
""", """            test_val = [_.upper() for _ in val]
            if test_value == test_key or value.upper() in test_val:
                return key
""")],
 demo='''
p = properties.StringChoice('c', choices={'a': ['One'], 'b': ['two']}, case_sensitive=True)
assert p.validate(None, 'One') == 'a'
try:
    got = p.validate(None, 'ONE')
except ValueError:
    pass
else:
    raise AssertionError(got)
'''),
dict(id='c05-strip-then-match', property='C05',
 needs='a String with strip and an anchored regex, and a value whose strip characters matter for the match',
 what='the regex is searched in the stripped string, not in the input',
 edits=[('basic.py', """        if self.regex is not None and self.regex.search(value) is None:        #pylint: disable=no-member
            self.error(instance, value, extra='Regex does not match.')
        value = value.strip(self.strip)
""", """        stripped = value.strip(self.strip)
        if self.regex is not None and self.regex.search(stripped) is None:     #pylint: disable=no-member
            self.error(instance, value, extra='Regex does not match.')
        value = stripped
""")],
 demo='''
p = properties.String('s', strip='_', regex='^_?[a-z]+$')
q = properties.String('s', strip='_', regex='^_')
assert q.validate(None, '_a') == 'a'
try:
    p.validate(None, '__a')
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c06-named-colour-hash', property='C06',
 needs='a colour whose last hex digit pair has a leading zero in the 3-digit form',
 what='3-digit hex strings that are palindromes of digits are doubled as a whole',
 edits=[('basic.py', """                value = ''.join(v*2 for v in value)
""", """                value = value * 2 if value[0] == value[2] else ''.join(v*2 for v in value)
""")],
 demo='''
p = properties.Color('c')
assert p.validate(None, '#fff') == (255, 255, 255)
assert p.validate(None, '#f0f') == (255, 0, 255), p.validate(None, '#f0f')
'''),
dict(id='c06-datetime-micro', property='C06',
 needs='a datetime with microseconds',
 what='microseconds of datetimes are dropped on validation',
 edits=[('basic.py', """        if isinstance(value, datetime.datetime):
            return value
""", """        if isinstance(value, datetime.datetime):
            return value.replace(microsecond=0) if value.microsecond else value
""")],
 demo='''
import datetime
d = datetime.datetime(2016, 3, 15, 1, 2, 3, 45)
assert properties.DateTime('d').validate(None, d) == d
'''),
dict(id='c07-empty-alias', property='C07',
 needs='an empty list assigned and mutated by the caller afterwards',
 what='an empty list is stored as it is, not copied',
 edits=[('base/containers.py', """        out = []
        for val in value:
            try:
                out += [self.prop.validate(instance, val)]
            except ValueError:
                self.error(instance, val, extra='This item is invalid.')
""", """        out = []
        if len(value) == 0 and isinstance(value, self._class_container):
            return value
        for val in value:
            try:
                out += [self.prop.validate(instance, val)]
            except ValueError:
                self.error(instance, val, extra='This item is invalid.')
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer(''))
mine = []
a = A(x=mine)
mine.append('text')
assert a.x == [], a.x
'''),
dict(id='c07-value-key', property='C07',
 needs='a dictionary whose key property coerces keys and whose value property rejects the value of a later key',
 what='the values of keys that were coerced are not validated',
 edits=[('base/containers.py', """            if self.value_prop:
                try:
                    val = self.value_prop.validate(instance, val)
                except ValueError:
                    self.error(instance, val, extra='This value is invalid.')
""", """            if self.value_prop and (key in value or not self.key_prop):
                try:
                    val = self.value_prop.validate(instance, val)
                except ValueError:
                    self.error(instance, val, extra='This value is invalid.')
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Dictionary('x', key_prop=properties.String('', change_case='upper'), value_prop=properties.Integer(''))
a = A()
try:
    a.x = {'a': 'text'}
except ValueError:
    pass
else:
    raise AssertionError(a.x)
'''),
dict(id='c07-length-equal', property='C07',
 needs='a list with equal min_length and max_length given in one declaration and a value of other length',
 what='lengths are not checked when min_length equals max_length and the value is longer',
 edits=[('base/containers.py', """                (self.max_length is not None and len(value) > self.max_length)
""", """                (self.max_length is not None and
                 len(value) > max(self.max_length, (self.min_length or 0) + 1))
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer(''), min_length=3, max_length=3)
a = A(x=[1, 2, 3])
a.validate()
a.x = [1, 2, 3, 4]
try:
    a.validate()
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c08-pop-detached', property='C08',
 needs='a mutation that its validator rejects, followed by another mutation of the same container',
 what='a container whose mutation was rejected is no longer observed',
 edits=[('base/containers.py', """        if not ioper:
            setattr(self._instance, self._name, copy)
            self._instance = None
            self._name = ''
        return val
""", """        if not ioper:
            instance, self._instance = self._instance, None
            setattr(instance, self._name, copy)
            self._name = ''
        return val
""")],
 demo='''
seen = []
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer(''), observe_mutations=True)
    @properties.observer('x')
    def note(self, change):
        seen.append(list(change['value']))
a = A(x=[1])
try:
    a.x.append('text')
except ValueError:
    pass
del seen[:]
a.x.append(2)
assert seen == [[1, 2]], seen
'''),
dict(id='c08-equal-detached', property='C08',
 needs='a container that was replaced by an equal one and is then mutated through an old reference',
 what='a container that is no longer stored still changes the property if it equals the stored one',
 edits=[('base/containers.py', """                self is not getattr(self._instance, self._name)
""", """                self != getattr(self._instance, self._name)
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer(''), observe_mutations=True)
a = A(x=[1])
old = a.x
a.x = [1]
old.append(2)
assert a.x == [1] and old == [1, 2], (a.x, old)
'''),
dict(id='c11-falsy-dropped', property='C11',
 needs='a property with value 0, False or an empty container',
 what='empty lists and dictionaries are left out of the serialized dictionary when include_class is not set',
 edits=[('base/base.py', """            json_dict = {k: v for k, v in data if v is not None}
            if include_class:
""", """            json_dict = {
                k: v for k, v in data
                if v is not None and (include_class or v != [])
            }
            if include_class:
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.List('x', properties.Integer(''))
assert A(x=[]).serialize() == {'__class__': 'A', 'x': []}
assert A(x=[]).serialize(include_class=False) == {'x': []}
'''),
dict(id='c11-dict-kwargs', property='C11',
 needs='a dictionary property with instances as values, serialized with include_class=False',
 what='dictionary values are serialized with their class whatever was asked for',
 edits=[('base/containers.py', """                self.key_prop.serialize(key, **kwargs),
                self.value_prop.serialize(val, **kwargs)
            )
            for key, val in iteritems(value)
        ]
        try:
            serial_dict""", """                self.key_prop.serialize(key, **kwargs),
                self.value_prop.serialize(val, **dict(kwargs, include_class=True))
            )
            for key, val in iteritems(value)
        ]
        try:
            serial_dict""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
class B(properties.HasProperties):
    d = properties.Dictionary('d', key_prop=properties.String(''), value_prop=A)
assert B(d={'k': A(x=1)}).serialize(include_class=False) == {'d': {'k': {'x': 1}}}
'''),
dict(id='c12-trusted-subclass', property='C12',
 needs='a trusted deserialize with strict where the dictionary names a class of the registry, and an unused key',
 what='unused keys are accepted in strict mode if the class is taken from the registry',
 edits=[('base/base.py', """        if unused and strict:
            raise ValueError(
""", """        if unused and strict and (output_cls is cls or not trusted):
            raise ValueError(
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
class B(A):
    y = properties.Integer('y')
try:
    A.deserialize({'__class__': 'B', 'x': 1, 'y': 2, 'z': 3}, trusted=True, strict=True)
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c12-immutable-validation', property='C12',
 needs='an immutable property whose deserialized value is invalid',
 what='values of immutable properties are stored without validation when trusted',
 edits=[('base/base.py', """            valid_val = output_cls._props[key].validate(instance, val)
            instance._backend[key] = valid_val
""", """            if not trusted:
                val = output_cls._props[key].validate(instance, val)
            instance._backend[key] = val
""")],
 demo='''
import uuid
class A(properties.HasProperties):
    u = properties.Uuid('u')
class P(properties.Uuid):
    @staticmethod
    def from_json(value, **kwargs):
        return value
class B(properties.HasProperties):
    u = P('u')
try:
    B.deserialize({'u': 'text'}, trusted=True)
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c13-tuple-class', property='C13',
 needs='a Set inside a List, copied',
 what='the elements of nested sets come back as a list',
 edits=[('base/containers.py', """        output_list = [self.prop.deserialize(val, **kwargs)
                       for val in value]
        return self._class_container(output_list)
""", """        output_list = [self.prop.deserialize(val, **kwargs)
                       for val in value]
        if output_list and isinstance(output_list[0], list):
            output_list = [list(val) for val in output_list]
            return output_list
        return self._class_container(output_list)
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Tuple('x', properties.List('', properties.Integer('')))
a = A(x=([1], [2]))
b = properties.copy(a)
assert properties.equal(a, b) and isinstance(b.x, tuple)
'''),
dict(id='c13-copy-kwargs', property='C13',
 needs='a copy of an instance whose nested instance is of a subclass of the declared class',
 what='copy does not trust the class names of nested instances in lists',
 edits=[('base/containers.py', """        output_list = [self.prop.deserialize(val, **kwargs)
                       for val in value]
""", """        output_list = [
            self.prop.deserialize(
                val, **dict(kwargs, trusted=kwargs['trusted'] and i == 0)
            ) for i, val in enumerate(value)
        ]
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
class B(A):
    y = properties.Integer('y')
class C(properties.HasProperties):
    items = properties.List('items', A)
c = C(items=[A(x=1), B(x=2, y=3)])
assert properties.equal(c, properties.copy(c))
'''),
dict(id='c14-set-matching', property='C14',
 needs='sets of equal length where one item of one set equals two of the other',
 what='set equality no longer pairs the items one to one',
 edits=[('base/containers.py', """            copy_b = value_b.copy()
            for item_a in value_a:
                for item_b in copy_b:
                    if self.prop.equal(item_a, item_b):
                        copy_b.remove(item_b)
                        break
            return len(copy_b) == 0
""", """            for item_a in value_a:
                if not any(self.prop.equal(item_a, item_b)
                           for item_b in value_b):
                    return False
            return True
""")],
 demo='''
p = properties.Set('s', properties.Float(''))
a, b = {0.0, 1.0}, {1.0, 1.0 + 5e-10}
assert not p.equal({1.0, 1.0 + 5e-10}, {1.0, 3.0})
'''),
dict(id='c14-unset-equal', property='C14',
 needs='two instances where only one has a value for a property whose equal accepts None',
 what='an unset property equals a set one if the prop compares None equal',
 edits=[('base/base.py', """            if (
                    prop_a is not None and
                    prop_b is not None and
                    prop.equal(prop_a, prop_b)
            ):
                continue
            return False
""", """            if prop.equal(prop_a, prop_b):
                continue
            return False
""")],
 demo='''
class Loose(properties.String):
    def equal(self, value_a, value_b):
        return (value_a or '') == (value_b or '')
class A(properties.HasProperties):
    x = Loose('x')
assert not properties.equal(A(), A(x=''))
'''),
dict(id='c15-default-shared', property='C15',
 needs='a callable default on a subclass overriding a plain one, and several instances',
 what='a callable class-level default is called once and its value shared by all instances',
 edits=[('base/base.py', """        if name in self._defaults:
            val = self._defaults[name]
        else:
            val = self._props[name].default
        if callable(val):
            val = val()
        setattr(self, name, val)
""", """        if name in self._defaults:
            val = self._defaults[name]
            if callable(val):
                val = self._defaults[name] = val()
        else:
            val = self._props[name].default
        if callable(val):
            val = val()
        setattr(self, name, val)
""")],
 demo='''
class Plain(object):
    pass
class A(properties.HasProperties):
    _defaults = {'x': Plain}
    x = properties.Instance('x', Plain)
assert A().x is not A().x
'''),
dict(id='c15-reset-stop', property='C15',
 needs='resetting everything on an instance with an immutable property declared before the others',
 what='a reset of all properties stops at the first immutable one',
 edits=[('base/base.py', """                if isinstance(self._props[key], basic.Property):
                    self._reset(key)
            return
""", """                if not isinstance(self._props[key], basic.Property):
                    if self._backend.get(key) is None:
                        continue
                    break
                self._reset(key)
            return
""")],
 demo='''
class A(properties.HasProperties):
    u = properties.Uuid('u')
    x = properties.Integer('x', default=5)
a = A()
a.x = 7
a._reset()
assert a.x == 5, a.x
'''),
dict(id='c16-observer-override', property='C16',
 needs='a subclass that redefines an observer as a plain method',
 what='handlers overridden by plain methods stay registered if they were validators of the class',
 edits=[('base/base.py', """    for key in classdict:
        if key in output:
            output.pop(key)
""", """    for key in classdict:
        if key in output and not attr.startswith('_class'):
            output.pop(key)
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x', required=False)
    @properties.validator
    def never(self):
        raise ValueError('never valid')
class B(A):
    def never(self):
        raise ValueError('not called')
B().validate()
'''),
dict(id='c16-doc-private', property='C16',
 needs='a class documenting private properties, one of them optional',
 what='optional private properties are documented twice',
 edits=[('base/base.py', """               if key[0] != '_' and not getattr(_props[key], 'required', True)]
""", """               if not getattr(_props[key], 'required', True)]
""")],
 demo='''
class A(properties.HasProperties):
    _doc_private = True
    _hidden = properties.Integer('hidden one', required=False)
    x = properties.Integer('x')
assert A.__doc__.count('**_hidden**') == 1, A.__doc__
'''),
dict(id='c17-union-base-errors', property='C17',
 needs='a Union whose first prop rejects the value with a KeyError',
 what='errors other than ValueError and TypeError of an earlier prop escape from Union.validate',
 edits=[('base/union.py', """                return getattr(prop, method_name)(instance, value)
            except GENERIC_ERRORS as err:
""", """                return getattr(prop, method_name)(instance, value)
            except (ValueError, TypeError, AttributeError) as err:
""")],
 demo='''
class Odd(properties.Property):
    def validate(self, instance, value):
        return {'known': 1}[value]
p = properties.Union('u', [Odd(''), properties.String('')])
assert p.validate(None, 'known') == 1
assert p.validate(None, 'text') == 'text'
'''),
dict(id='c17-serialize-first', property='C17',
 needs='a Union whose first prop accepts the value by coercion and whose later prop returns it unchanged',
 what='Union serializes with the prop that leaves the value unchanged, not with the first that accepts it',
 edits=[('base/union.py', """                prop.validate(None, value)
            except GENERIC_ERRORS:
                continue
            return prop.serialize(value, **kwargs)
""", """                if prop.validate(None, value) is not value:
                    continue
            except GENERIC_ERRORS:
                continue
            return prop.serialize(value, **kwargs)
""")],
 demo='''
p = properties.Union('u', [properties.List('', properties.Color('')), properties.Property('', serializer=lambda v: 'other')])
v = p.validate(None, ['red'])
assert p.serialize(v) == [[255, 0, 0]] or p.serialize(v) == [(255, 0, 0)], p.serialize(v)
'''),
dict(id='c18-setter-raw', property='C18',
 needs='a dynamic property with a setter whose prop coerces the value',
 what='the setter of a dynamic property gets the value as given when it already equals the validated one',
 edits=[('basic.py', """            scope.set_func(self, scope.validate(self, value))
""", """            valid = scope.validate(self, value)
            scope.set_func(self, value if value == valid else valid)
""")],
 demo='''
got = []
class A(properties.HasProperties):
    @properties.Float('x')
    def x(self):
        return 1.0
    @x.setter
    def x(self, value):
        got.append(value)
a = A()
a.x = 5
assert type(got[0]) is float, got
'''),
dict(id='c18-renamed-delete', property='C18',
 needs='deleting through a Renamed property that names another Renamed property',
 what='deleting through a renamed property unsets the value directly, without going through the new name',
 edits=[('basic.py', """            delattr(self, scope.new_name)
""", """            self._set(scope.new_name, undefined)
""")],
 demo='''
calls = []
class A(properties.HasProperties):
    @properties.Integer('x')
    def x(self):
        return 1
    @x.deleter
    def x(self):
        calls.append(1)
    old = properties.Renamed('x', warn=False)
a = A()
del a.old
assert calls == [1], calls
'''),
]
