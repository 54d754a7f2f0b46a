I = 'base/instance.py'
BB = 'base/base.py'
B = 'basic.py'
C = 'base/containers.py'
W = 'extras/web.py'
U = 'extras/uid.py'
UN = 'base/union.py'
SEEDS = [
dict(id='c17-dict-instance', property='C17',
 needs='an Instance whose instance_class is a dict subclass',
 what='an instance that is a dictionary is taken for keywords and rebuilt instead of returned unchanged',
 edits=[(I, """            if isinstance(value, self.instance_class):
                return value
            if isinstance(value, dict):
                return self.instance_class(**value)
""", """            if isinstance(value, dict):
                return self.instance_class(**value)
            if isinstance(value, self.instance_class):
                return value
""")],
 demo='''
class Table(dict):
    pass
t = Table(a=1)
assert properties.Instance('t', Table).validate(None, t) is t
'''),
dict(id='c13-instance-json-shared', property='C13',
 needs='an Instance property of a plain mutable class with a deserializer that keeps the JSON value',
 what='to_json returns the stored value itself, so that a copy shares it with the original',
 edits=[(I, "            return json.loads(json.dumps(value))\n", "            json.dumps(value)\n            return value\n")],
 demo='''
class A(properties.HasProperties):
    rows = properties.Instance('rows', list, deserializer=lambda v, **kw: v)
a = A(rows=[1, [2]])
b = properties.copy(a)
assert b.rows == a.rows and b.rows is not a.rows
b.rows[1].append(3)
assert a.rows == [1, [2]]
'''),
dict(id='c07-keys-collide', property='C07',
 needs='a dictionary with two keys that the key property makes the same',
 what='the first of the values of keys that become equal is kept instead of the last',
 edits=[(C, "                out[key] = val\n", "                out.setdefault(key, val)\n")],
 demo='''
p = properties.Dictionary('d', key_prop=properties.String('k', change_case='lower'))
assert p.validate(None, {'A': 1, 'a': 2}) == {'a': 2}
'''),
dict(id='c05-url-params', property='C05',
 needs='a URL with parameters (;x) and remove_fragment without remove_parameters',
 what='the parameters go with the fragment',
 edits=[(W, "params='' if self.remove_parameters else parsed_url.params", "params='' if self.remove_fragment else parsed_url.params")],
 demo='''
from properties.extras import URL
assert URL('u', remove_fragment=True).validate(None, 'http://a.b/c;x?q=1#f') == 'http://a.b/c;x?q=1'
'''),
dict(id='c12-union-strict', property='C12',
 needs='a Union inside a strict deserialization whose strict_instances is False',
 what='strict does not reach the instances of a Union',
 edits=[(UN, "'strict': kwargs.get('strict') or self.strict_instances", "'strict': self.strict_instances or kwargs.get('trusted')")],
 demo='''
class In(properties.HasProperties):
    x = properties.Integer('x')
class Out(properties.HasProperties):
    u = properties.Union('u', [properties.Integer('i'), In])
j = {'__class__': 'Out', 'u': {'__class__': 'In', 'x': 1, 'more': 2}}
try:
    Out.deserialize(j, strict=True)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c25-serialize-second', property='C25',
 needs='two self-references under a property whose serializer survives a SelfReferenceError',
 what='the first recursive serialize clears the guard, so that the second one recurses',
 edits=[(BB, """        if getattr(self, '_getting_serialized', False):
            raise utils.SelfReferenceError(""", """        if self.__dict__.pop('_getting_serialized', False):
            raise utils.SelfReferenceError(""")],
 demo='''
import sys
sys.setrecursionlimit(300)
seen = []
def ser(value, **kwargs):
    for i in range(2):
        try:
            value.serialize()
        except properties.SelfReferenceError:
            seen.append(i)
    return len(seen)
class A(properties.HasProperties):
    x = properties.Property('x', serializer=ser)
a = A()
a.x = a
assert a.serialize() == {'__class__': 'A', 'x': 2}
'''),
dict(id='c12-strict-dunder', property='C12',
 needs='strict deserialization of an unused key with leading underscores',
 what='an unused key is not rejected',
 edits=[(BB, """        unused.pop('__class__', None)
""", """        unused = [key for key in unused if not key.startswith('__')]
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
try:
    A.deserialize({'__class__': 'A', 'x': 1, '__version__': 2}, strict=True)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c25-backup-raises', property='C25',
 needs='stop_recursion_with a function that returns an exception',
 what='the exception is returned instead of raised',
 edits=[('utils.py', "                if isinstance(output, Exception):\n                    raise output", "                if output is decorator.backup and isinstance(output, Exception):\n                    raise output")],
 demo='''
class A(object):
    @properties.stop_recursion_with(lambda self: ValueError('again'))
    def f(self):
        return self.f()
try:
    A().f()
except ValueError:
    pass
else:
    raise AssertionError('returned')
'''),
dict(id='c15-none-default', property='C15',
 needs='a class-level default of None',
 what='it is not rejected although no value of the property',
 edits=[(BB, """                if value is utils.undefined:
                    continue
                newcls._props""", """                if value is utils.undefined or value is None:
                    continue
                newcls._props""")],
 demo='''
try:
    class A(properties.HasProperties):
        x = properties.Integer('x')
        _defaults = {'x': None}
except AttributeError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c06-hash-behind', property='C06',
 needs='a hex colour followed by #',
 what='a string that is no colour is accepted',
 edits=[(B, ".lstrip('#')", ".strip('#')")],
 demo='''
try:
    properties.Color('c').validate(None, 'FF0000#')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c12-key-deserializer', property='C12',
 needs='a Dictionary whose key_prop has a deserializer',
 what='keys are not loaded by the deserializer of the key property',
 edits=[(C, """                self.key_prop.deserialize(key, **kwargs),
                self.value_prop.deserialize""", """                self.key_prop.from_json(key, **kwargs),
                self.value_prop.deserialize""")],
 demo='''
class A(properties.HasProperties):
    d = properties.Dictionary('d', key_prop=properties.Integer('k', serializer=str, deserializer=lambda v, **kw: int(v, 16)),
                              value_prop=properties.Integer('v'))
assert A.deserialize({'d': {'ff': 1}}).d == {255: 1}
'''),
dict(id='c20-pointer-falsy', property='C20',
 needs='a Pointer to a class whose instances can be false',
 what='a false instance of another class is accepted, and one that load finds is not used',
 edits=[(U, "        if instance_value is not None:\n            return super", "        if instance_value:\n            return super")],
 demo='''
from properties.extras import HasUID, Pointer
class Bag(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}
    items = properties.List('i', properties.Integer('n'), default=list)
    def __len__(self):
        return len(self.items)
b = Bag(uid='b')
assert Pointer('p', Bag, load=True).validate(None, 'b') is b
'''),
dict(id='c14-stored-only', property='C14',
 needs='a dynamic property computed from what is no property',
 what='what is computed is not compared',
 edits=[(BB, """            prop_a = getattr(value_a, prop.name)
            prop_b = getattr(value_b, prop.name)""", """            prop_a = value_a._get(prop.name)
            prop_b = value_b._get(prop.name)""")],
 demo='''
class A(properties.HasProperties):
    hidden = 1
    @properties.Integer('i')
    def shown(self):
        return self.hidden
a, b = A(), A()
b.hidden = 2
assert a.shown == 1 and b.shown == 2
assert not properties.equal(a, b)
'''),
dict(id='c20-null-skipped', property='C20',
 needs='a flat dictionary with null for a property that has a default',
 what='the default is kept instead of the value given',
 edits=[(BB, """                for key, val in iteritems(mutable):
                    setattr(instance, key, val)
        for""", """                for key, val in iteritems(mutable):
                    if val is not None:
                        setattr(instance, key, val)
        for""")],
 demo='''
from properties.extras import HasUID
class A(HasUID):
    _REGISTRY = {}
    _INSTANCES = {}
    x = properties.Property('x', default=5)
assert A.deserialize({'__root__': 'r', 'r': {'uid': 'r', 'x': None}}).x is None
'''),
]
