SEEDS = [
dict(id='c19-equal-skip', property='C19',
 needs='a target that compares equal to the new source value without being the same value (True and 1)',
 what='a link leaves the target alone when it compares equal to the transformed value',
 edits=[('link.py', """            setattr(self.target[0], self.target[1], self.transform(
                getattr(self.source[0], self.source[1])
            ))
""", """            value = self.transform(getattr(self.source[0], self.source[1]))
            if getattr(self.target[0], self.target[1]) != value:
                setattr(self.target[0], self.target[1], value)
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Property('x', required=False)
a, b = A(x=5), A(x=True)
properties.directional_link((a, 'x'), (b, 'x'))
a.x = 1
assert b.x is not True, b.x
'''),
dict(id='c19-star', property='C19',
 needs='three linked items, of which the first already has the new value when the second changes',
 what='link connects every item with the first one only',
 edits=[('link.py', """        for i, item_i in enumerate(items):
            for j, item_j in enumerate(items):
                if i == j:
                    continue
                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
""", """        for i, item_i in enumerate(items):
            for j, item_j in enumerate(items):
                if i == j or (i and j):
                    continue
                self._dlinks += (directional_link(item_i, item_j, **kwargs),)
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Property('x', required=False)
a, b, c = A(), A(), A()
l = properties.link((a, 'x'), (b, 'x'), (c, 'x'))
l.unlink()
a.x = 5
l.relink()
b.x = 5
assert c.x == 5, c.x
'''),
dict(id='c19-unlink-count', property='C19',
 needs='a link that is unlinked twice and relinked once',
 what='unlinks are counted, so relink does not resume after a repeated unlink',
 edits=[('link.py', """        self._unlinked = False

    def unlink""", """        self._unlinked = max(0, getattr(self, '_unlinked', 0) - 1)

    def unlink"""),
        ('link.py', """        self._unlinked = True
""", """        self._unlinked = getattr(self, '_unlinked', 0) + 1
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Property('x', required=False)
a, b = A(), A()
l = properties.directional_link((a, 'x'), (b, 'x'))
l.unlink()
a.x = 1
assert b.x is None
l.relink()
a.x = 2
assert b.x == 2
l.unlink()
l.unlink()
a.x = 3
assert b.x == 2
l.relink()
a.x = 4
assert b.x == 4, b.x
'''),
dict(id='c20-unique-per-class', property='C20',
 needs='two HasUID classes sharing the default registry of instances',
 what='a uid used by an instance of another class is accepted',
 edits=[('extras/uid.py', """        elif change['value'] in self._INSTANCES:
""", """        elif isinstance(self._INSTANCES.get(change['value']), type(self)):
""")],
 demo='''
from properties.extras import HasUID
class A(HasUID):
    pass
class B(HasUID):
    pass
a, b = A(uid='a'), B(uid='b')
try:
    b.uid = 'a'
except ValueError:
    pass
else:
    raise AssertionError
assert HasUID.load('a') is a and HasUID.load('b') is b
'''),
dict(id='c20-pointer-order', property='C20',
 needs='a Pointer with load to a class whose validate_uid rejects the uid of an existing instance',
 what='an instance is loaded for a uid that the class rejects',
 edits=[('extras/uid.py', """                if hasattr(self.instance_class, 'validate_uid'):
                    self.instance_class.validate_uid(value)
                if self.load and hasattr(self.instance_class, 'load'):
                    instance_value = self.instance_class.load(value)
""", """                if self.load and hasattr(self.instance_class, 'load'):
                    instance_value = self.instance_class.load(value)
                if instance_value is None and hasattr(self.instance_class, 'validate_uid'):
                    self.instance_class.validate_uid(value)
""")],
 demo='''
from properties.extras import HasUID, Pointer
class A(HasUID):
    @classmethod
    def validate_uid(cls, uid):
        if uid.startswith('retired'):
            raise properties.ValidationError('retired')
        return True
class B(properties.HasProperties):
    p = Pointer('p', A, load=True)
a, r = A(uid='a'), A(uid='retired-1')
b = B(p='a')
assert b.p is a
try:
    b.p = 'retired-1'
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c20-strict-nested', property='C20',
 needs='deserialize with strict of a flat dictionary whose entry has an unknown key',
 what='strict reaches only the choice of the class, unused keys are accepted',
 edits=[('extras/uid.py', """                trusted=trusted,
                strict=strict,
""", """                trusted=trusted,
                strict=strict and trusted,
""")],
 demo='''
from properties.extras import HasUID
class A(HasUID):
    pass
a = A.deserialize({'__root__': 'a', 'a': {'uid': 'a'}}, strict=True)
assert a.uid == 'a'
try:
    A.deserialize({'__root__': 'b', 'b': {'uid': 'b', 'other': 1}}, strict=True)
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c20-include-class-root', property='C20',
 needs='serialize(include_class=False) of an instance that refers to others',
 what='keywords other than include_class are not passed to nested instances when the registry is started',
 edits=[('extras/uid.py', """                include_class=include_class,
                save_dynamic=save_dynamic,
                **kwargs
            )})
""", """                include_class=include_class,
                save_dynamic=save_dynamic and root,
                **kwargs
            )})
""")],
 demo='''
from properties.extras import HasUID
class A(HasUID):
    @properties.Integer('n')
    def n(self):
        return 5
    other = properties.Instance('o', HasUID, required=False)
a = A(uid='a', other=A(uid='b'))
got = a.serialize(save_dynamic=True)
assert got['a']['n'] == 5
assert got['b'].get('n') == 5, got
'''),
dict(id='c21-early-register', property='C21',
 needs='a construction that fails, and then another one with the same name',
 what='a singleton is registered before its construction has succeeded',
 edits=[('extras/singleton.py', """        self._singleton_id = name
        super(Singleton, self).__init__(**kwargs)
""", """        self._singleton_id = name
        self._SINGLETONS.setdefault(name, self)
        super(Singleton, self).__init__(**kwargs)
""")],
 demo='''
from properties.extras import Singleton
class S(Singleton):
    _SINGLETONS = dict()
    n = properties.Integer('n', required=False)
try:
    S('a', n='bad')
except ValueError:
    pass
assert not S._SINGLETONS, S._SINGLETONS
s = S('a', n=5)
assert s.n == 5
'''),
dict(id='c21-coerced-id', property='C21',
 needs='a name property that normalises its value',
 what='the identity is the normalised name, not the name the singleton is registered under',
 edits=[('extras/singleton.py', """        self._singleton_id = name
""", """        self._singleton_id = self.name
""")],
 demo='''
from properties.extras import Singleton
class S(Singleton):
    _SINGLETONS = dict()
    name = properties.String('name', change_case='upper')
s = S('abc')
assert S('abc') is s
assert S.deserialize(s.serialize()) is s
'''),
dict(id='c21-falsy-id', property='C21',
 needs='a singleton with an empty name whose name property was changed',
 what='an empty identity in the dictionary is replaced by the name',
 edits=[('extras/singleton.py', """        identifier = value.pop('_singleton_id', value.get('name'))
""", """        identifier = value.pop('_singleton_id', None) or value.get('name')
""")],
 demo='''
from properties.extras import Singleton
class S(Singleton):
    _SINGLETONS = dict()
    name = properties.String('name')
s = S('')
s.name = 'changed'
assert S.deserialize(s.serialize()) is s
'''),
dict(id='c22-none-dropped', property='C22',
 needs='a keyword None for an input property with a default',
 what='keywords that are None are dropped from the input',
 edits=[('extras/task.py', """        input_obj = self.Input.deserialize(kwargs)
""", """        input_obj = self.Input.deserialize(
            {key: val for key, val in kwargs.items() if val is not None}
        )
""")],
 demo='''
from properties.extras import BaseInput, BaseOutput, BaseTask
class T(BaseTask):
    class Input(BaseInput):
        n = properties.Integer('n', default=3, required=False,
                               deserializer=lambda v, **_: 7 if v is None else v)
    def run(self, input_obj):
        seen.append(input_obj.n)
        return BaseOutput()
seen = []
T()()
T()(n=5)
T()(n=None)
assert seen == [3, 5, 7], seen
'''),
dict(id='c22-own-output', property='C22',
 needs='a run that returns an invalid output of a class other than the declared Output',
 what='only outputs of the declared class are validated',
 edits=[('extras/task.py', """        output_obj.validate()
""", """        if isinstance(output_obj, self.Output):
            output_obj.validate()
""")],
 demo='''
from properties.extras import BaseInput, BaseOutput, BaseTask
class Other(BaseOutput):
    n = properties.Integer('n')
class T(BaseTask):
    class Output(BaseOutput):
        pass
    def run(self, input_obj):
        return Other()
try:
    T()()
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c23-third-dim', property='C23',
 needs='an Array with three declared dimensions',
 what='only the first two lengths of a shape are compared',
 edits=[('math.py', """            for i, shp in enumerate(shape):
                if shp""", """            for i, shp in enumerate(shape[:2]):
                if shp""")],
 demo='''
p = properties.Array('a', shape=('*', 2, 3))
assert p.validate(None, [[[1.] * 3] * 2]).shape == (1, 2, 3)
try:
    p.validate(None, [[[1.] * 4] * 2])
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c23-nan-count', property='C23',
 needs='two arrays with the same number of nans in different places and the same other values',
 what='arrays with nans in different places are equal',
 edits=[('math.py', """            if not np.array_equal(nan_mask, ~np.isnan(value_b)):
                return False
            value_a, value_b = value_a[nan_mask], value_b[nan_mask]
""", """            if nan_mask.shape != value_b.shape:
                return False
            if nan_mask.sum() != (~np.isnan(value_b)).sum():
                return False
            value_a, value_b = value_a[nan_mask], value_b[~np.isnan(value_b)]
""")],
 demo='''
import numpy as np
p = properties.Array('a')
n = float('nan')
assert p.equal(np.array([1., n]), np.array([1., n]))
assert not p.equal(np.array([1., n]), np.array([n, 1.]))
'''),
dict(id='c23-lower-z', property='C23',
 needs='a Vector2 set to the name of a vertical direction in lower case',
 what='Vector2 accepts the vertical directions in lower case, as zero',
 edits=[('math.py', """                    value.upper() not in VECTOR_DIRECTIONS or
                    value.upper() in ('Z', '-Z', 'UP', 'DOWN')
""", """                    value.upper() not in VECTOR_DIRECTIONS or
                    value in ('Z', '-Z', 'UP', 'DOWN', 'up', 'down')
""")],
 demo='''
p = properties.Vector2('v')
assert list(p.validate(None, '-x')) == [-1, 0]
for name in ('Z', '-Z', 'up', 'DOWN', 'z'):
    try:
        got = p.validate(None, name)
    except ValueError:
        pass
    else:
        raise AssertionError((name, got))
'''),
dict(id='c24-delete-opened', property='C24',
 needs='a File property without mode that is deleted',
 what='deleting closes only files of properties that open files themselves',
 edits=[('basic.py', """            if self._get(scope.name) is not None:
                self._get(scope.name).close()
""", """            if self._get(scope.name) is not None and scope.mode is not None:
                self._get(scope.name).close()
""")],
 demo='''
import io
class A(properties.HasProperties):
    f = properties.File('f', required=False)
f = io.BytesIO(b'abc')
a = A(f=f)
del a.f
assert f.closed
'''),
dict(id='c24-short-signature', property='C24',
 needs='content that starts with the first half of the PNG signature only',
 what='only the first four bytes of the PNG signature are checked',
 edits=[('images.py', """                png.Reader(value).validate_signature()
""", """                if value.read(4) != b'\\x89PNG':
                    raise png.FormatError('not a PNG')
""")],
 demo='''
import io
p = properties.ImagePNG('f')
assert p.validate(None, io.BytesIO(b'\\x89PNG\\r\\n\\x1a\\nrest')).read() == b'\\x89PNG\\r\\n\\x1a\\nrest'
for bad in (b'', b'\\x89PNG', b'\\x89PNG\\n\\n\\x1a\\nrest'):
    try:
        p.validate(None, io.BytesIO(bad))
    except ValueError:
        pass
    else:
        raise AssertionError(bad)
'''),
dict(id='c25-stop-exceptions', property='C25',
 needs='a guarded method that is left by KeyboardInterrupt, and called again',
 what='stop_recursion_with releases the object only for ordinary exceptions',
 edits=[('utils.py', """            try:
                decorator.held_objects.append(self)
                output = func(self, *args, **kwargs)
            finally:
                decorator.held_objects.remove(self)
            return output
""", """            decorator.held_objects.append(self)
            try:
                output = func(self, *args, **kwargs)
            except Exception:
                decorator.held_objects.remove(self)
                raise
            decorator.held_objects.remove(self)
            return output
""")],
 demo='''
import warnings
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    from properties.utils import stop_recursion_with
    class A(object):
        fail = True
        @stop_recursion_with('backup')
        def run(self):
            if self.fail:
                raise KeyboardInterrupt()
            return 'run'
a = A()
try:
    a.run()
except KeyboardInterrupt:
    pass
a.fail = False
assert a.run() == 'run', a.run()
'''),
dict(id='c25-serialize-generic', property='C25',
 needs='a serializer that raises an unusual exception (one of zip or database code), and another serialize',
 what='the serialization guard is released only after the usual exceptions',
 edits=[('base/base.py', """            return json_dict
        finally:
            self._getting_serialized = False
""", """        except GENERIC_ERRORS + (utils.SelfReferenceError,):
            self._getting_serialized = False
            raise
        self._getting_serialized = False
        return json_dict
""")],
 demo='''
class Odd(Exception):
    pass
def once(value, **kwargs):
    if not seen:
        seen.append(value)
        raise Odd()
    return value
seen = []
class A(properties.HasProperties):
    x = properties.Integer('x', serializer=once)
a = A(x=5)
try:
    a.serialize()
except Odd:
    pass
assert a.serialize(include_class=False) == {'x': 5}
'''),
dict(id='c25-equal-both', property='C25',
 needs='equality of instances that refer back to one of the two operands',
 what='the equality guard of the second operand is released too, also when it is still in progress',
 edits=[('base/base.py', """        value_a._testing_equality = False                                      #pylint: disable=protected-access
""", """        for value in (value_a, value_b):
            if getattr(value, '_testing_equality', False):
                value._testing_equality = False                                #pylint: disable=protected-access
""")],
 demo='''
class N(properties.HasProperties):
    n = properties.Integer('n', required=False)
class R(properties.Property):
    def equal(self, i, j):
        properties.equal(N(), self.busy)
        # g is still being compared, so this is a recursive call
        assert properties.equal(self.busy, N()) is False
        assert properties.equal(self.busy, self.other) is False
        return True
r = R('r')
class E(properties.HasProperties):
    r = r
g, h = E(r=1), E(r=2)
r.busy, r.other = g, h
assert properties.equal(g, h)
'''),
dict(id='c25-validate-base', property='C25',
 needs='a class validator that raises an exception that is no Exception, and another validate',
 what='the validation guard is released only for ordinary exceptions',
 edits=[('base/base.py', """            if self._non_validation_error:
                raise self._non_validation_error                               #pylint: disable=raising-bad-type
            return True
        finally:
            self._getting_validated = False
            self._validation_error_tuples = None
            self._non_validation_error = None
""", """            if self._non_validation_error:
                raise self._non_validation_error                               #pylint: disable=raising-bad-type
        except Exception:
            self._getting_validated = False
            self._validation_error_tuples = None
            self._non_validation_error = None
            raise
        self._getting_validated = False
        self._validation_error_tuples = None
        self._non_validation_error = None
        return True
""")],
 demo='''
class A(properties.HasProperties):
    stop = True
    x = properties.Integer('x')
    @properties.validator
    def _check(self):
        if self.stop:
            raise SystemExit()
a = A()
try:
    a.validate()
except SystemExit:
    pass
a.stop = False
try:
    a.validate()
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c26-falsy-default', property='C26',
 needs='a default that is false and invalid for the property',
 what='a false default is not checked',
 edits=[('basic.py', """        elif value is not undefined:
            self.validate(None, value)
        self._default = value
""", """        elif value and value is not undefined:
            self.validate(None, value)
        self._default = value
""")],
 demo='''
try:
    properties.Integer('i', min=5, default=1)
except ValueError:
    pass
else:
    raise AssertionError
try:
    properties.Integer('i', min=5, default=0)
except ValueError:
    pass
else:
    raise AssertionError
'''),
dict(id='c26-length-bool', property='C26',
 needs='max_length given before min_length',
 what='bounds out of order are accepted when max_length is set first',
 edits=[('base/containers.py', """        if self.max_length is not None and value > self.max_length:
            raise TypeError('min_length must be <= max_length')
""", """        if self.max_length and value > self.max_length:
            raise TypeError('min_length must be <= max_length')
""")],
 demo='''
for kw in (dict(max_length=2, min_length=3), dict(max_length=0, min_length=1), dict(min_length=1, max_length=0)):
    try:
        properties.List('l', properties.Integer('i'), **kw)
    except TypeError:
        pass
    else:
        raise AssertionError(kw)
'''),
dict(id='c26-tag-shared', property='C26',
 needs='a property tagged with a dictionary, and the dictionary or another property used later',
 what='the dictionary given to tag becomes the meta data itself when there was none',
 edits=[('basic.py', """            self._meta.update(tag[0])
""", """            if not self._meta:
                self._meta = tag[0]
            self._meta.update(tag[0])
""")],
 demo='''
d = {'a': 1}
p = properties.Integer('p').tag(d)
q = properties.Integer('q').tag(d)
p.tag(b=2)
assert q.meta == {'a': 1} and d == {'a': 1}, (q.meta, d)
'''),
]
SEEDS = [s for s in SEEDS if s['demo']]
