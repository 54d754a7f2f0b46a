BB = 'base/base.py'
L = 'link.py'
T = 'extras/task.py'
U = 'extras/uid.py'
S = 'extras/singleton.py'
SEEDS = [
dict(id='c16-registry-first', property='C16',
 needs='a class whose name is already in the registry',
 what='the registry keeps the first class of a name instead of the latest',
 edits=[(BB, "        newcls._REGISTRY[name] = newcls\n", "        newcls._REGISTRY.setdefault(name, newcls)\n")],
 demo='''
class Base(properties.HasProperties):
    _REGISTRY = dict()
class A(Base):
    x = properties.Integer('x')
class A(Base):
    y = properties.Integer('y')
assert Base._REGISTRY['A'] is A
'''),
dict(id='c19-private-ends', property='C19',
 needs='linking a private property',
 what='names that begin with an underscore are rejected as endpoints',
 edits=[(L, "        if not isinstance(item[1], string_types):\n", "        if not isinstance(item[1], string_types) or item[1][:1] == '_':\n")],
 demo='''
class A(properties.HasProperties):
    _p = properties.Integer('p')
a, b = A(), A()
properties.directional_link((a, '_p'), (b, '_p'))
a._p = 3
assert b._p == 3
'''),
dict(id='c10-class-attr', property='C10',
 needs='a keyword naming an attribute that only the instance has, set by a subclass before the inherited __init__',
 what='only attributes of the class are accepted as keywords',
 edits=[(BB, "                if not prop and not hasattr(self, key):", "                if not prop and not hasattr(type(self), key):")],
 demo='''
class A(properties.HasProperties):
    def __init__(self, **kwargs):
        self.note = None
        super(A, self).__init__(**kwargs)
assert A(note='n').note == 'n'
'''),
dict(id='c22-declared-output', property='C22',
 needs='a task whose Output is no BaseOutput and whose run returns one',
 what='an instance of the declared Output is accepted even if it is no BaseOutput',
 edits=[(T, "        if not isinstance(output_obj, BaseOutput):", "        if not isinstance(output_obj, (BaseOutput, self.Output)):")],
 demo='''
from properties.extras import BaseTask
class Out(properties.HasProperties):
    pass
class Job(BaseTask):
    Output = Out
    def run(self, input_obj):
        return Out()
try:
    Job()()
except ValueError:
    pass
else:
    raise AssertionError('accepted')
'''),
dict(id='c22-trusted-input', property='C22',
 needs='a keyword __class__ naming another class of the registry',
 what='the input is built from the class the keywords name instead of the Input of the task',
 edits=[(T, "        input_obj = self.Input.deserialize(kwargs)", "        input_obj = self.Input.deserialize(kwargs, trusted=True)")],
 demo='''
from properties.extras import BaseTask, BaseInput, BaseOutput
class In(BaseInput):
    n = properties.Integer('n', max=9)
class Other(In):
    n = properties.Integer('n')
seen = []
class Job(BaseTask):
    Input = In
    def run(self, input_obj):
        seen.append(type(input_obj))
        return BaseOutput()
try:
    Job()(n=1, __class__='Other')
except ValueError:
    pass
assert not seen or seen == [In], seen
'''),
dict(id='c12-null-immutable', property='C12',
 needs='a dictionary with null for an immutable property whose validation gives something else for None',
 what='a null for an immutable property is skipped instead of validated',
 edits=[(BB, "            valid_val = output_cls._props[key].validate(instance, val)\n            instance",
         "            if val is None:\n                continue\n            valid_val = output_cls._props[key].validate(instance, val)\n            instance")],
 demo='''
class Mark(properties.GettableProperty):
    def validate(self, instance, value):
        return 'none' if value is None else value
    @staticmethod
    def from_json(value, **kwargs):
        return None if value == '' else value
class A(properties.HasProperties):
    m = Mark('m', default='default')
assert A.deserialize({'m': ''}).m == 'none'
'''),
dict(id='c20-load-truthy', property='C20',
 needs='a pointer with load=True given a falsy uid that load knows',
 what='load is not called for falsy values',
 edits=[(U, "                if self.load and hasattr(self.instance_class, 'load'):\n",
         "                if self.load and value and hasattr(self.instance_class, 'load'):\n")],
 demo='''
from properties.extras import HasUID, Pointer
class A(HasUID):
    _INSTANCES = dict()
    uid = properties.String('uid', default='x')
    @classmethod
    def load(cls, uid):
        return THE if uid == '' else super(A, cls).load(uid)
THE = A(uid='the')
class B(properties.HasProperties):
    p = Pointer('p', A, load=True)
b = B(p='')
assert b.p is THE
'''),
dict(id='c17-union-unchanged', property='C17',
 needs='a union whose first prop loads the value unchanged but does not accept it',
 what='a loaded value that is the input itself is not validated',
 edits=[('base/union.py', "                out_val = prop.deserialize(value, **kwargs)\n                prop.validate(None, out_val)",
         "                out_val = prop.deserialize(value, **kwargs)\n                if out_val is not value:\n                    prop.validate(None, out_val)")],
 demo='''
u = properties.Union('u', [properties.StringChoice('c', ['a']), properties.Integer('i'), properties.String('s')])
assert u.deserialize('7') in (7, '7')
u = properties.Union('u', [properties.Instance('o', properties.HasProperties), properties.Integer('i', max=3), properties.Integer('j')])
class A(properties.HasProperties):
    u = properties.Union('u', [properties.StringChoice('c', ['a']), properties.List('l', properties.Integer('i')), properties.DateTime('d')])
import datetime
got = A._props['u'].deserialize('2020-01-01T00:00:00Z')
assert isinstance(got, datetime.datetime), got
'''),
]
