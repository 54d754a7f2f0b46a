SEEDS = [
dict(id='c01-share-change', property='C01',
 needs='an attribute validator that sets change["value"] for a property and then raises only for some of those values, on a property that is already set',
 what='the stored value is removed before validators run, so that a rejected assignment of undefined-like values loses the previous value',
 edits=[('base/base.py', """        change = dict(name=name, previous=prev, value=value, mode='validate')
        self._notify(change)
        if change['value'] is utils.undefined:
""", """        change = dict(name=name, previous=prev, value=value, mode='validate')
        if value is utils.undefined:
            self._backend.pop(name, None)
        self._notify(change)
        if change['value'] is utils.undefined:
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
    @properties.validator('x')
    def keep(self, change):
        if change['value'] is properties.undefined:
            raise ValueError('cannot be removed')
a = A(x=1)
try:
    del a.x
except ValueError:
    pass
assert a.x == 1, a.x
'''),
dict(id='c02-change-dict', property='C02',
 needs='an observe_change listener that modifies change["previous"] or change["name"], together with an observe_set listener',
 what='observers called later see the previous value and name changed by an earlier phase',
 edits=[('base/base.py', """        change.update(name=name, previous=prev, mode='observe_set')
""", """        change.update(mode='observe_set')
""")],
 demo='''
seen = []
class A(properties.HasProperties):
    x = properties.Integer('x')
    @properties.observer('x', change_only=True)
    def first(self, change):
        change['previous'] = 'gone'
    @properties.observer('x')
    def second(self, change):
        seen.append(change['previous'])
a = A(x=1)
a.x = 2
assert seen == [properties.undefined, 1], seen
'''),
dict(id='c03-exit-difference', property='C03',
 needs='contexts of overlapping types nested in each other',
 what='leaving an inner context re-enables the types it disabled even if an outer context disabled them too',
 edits=[('handlers.py', """            listeners_disabled._quarantine.update(self.disable_type)
""", """            listeners_disabled._quarantine.update(self.disable_type)
            if self._previous_states[-1] == self.disable_type:
                self._previous_states[-1] = set()
""")],
 demo='''
seen = []
class A(properties.HasProperties):
    x = properties.Integer('x')
    @properties.observer('x')
    def second(self, change):
        seen.append(change['value'])
a = A()
with properties.observers_disabled():
    with properties.observers_disabled():
        a.x = 1
    a.x = 2
a.x = 3
assert seen == [3], seen
'''),
dict(id='c04-cast-bounds', property='C04',
 needs='cast=True and a float that is out of bounds only after truncation (or only before)',
 what='Integer bounds are checked on the input instead of the result when casting, so values outside the range are stored',
 edits=[('basic.py', """            self.error(instance, value, extra='Cannot cast to integer.')
        _in_bounds(self, instance, intval)
        return intval
""", """            self.error(instance, value, extra='Cannot cast to integer.')
        if self.cast and isinstance(value, float):
            _in_bounds(self, instance, value)
        else:
            _in_bounds(self, instance, intval)
        return intval
""")],
 demo='''
p = properties.Integer('x', cast=True, max=-0.25)
try:
    out = p.validate(None, -0.75)
except ValueError:
    out = None
assert out is None, out
'''),
dict(id='c09-first-tuple', property='C09',
 needs='a property whose assert_valid raises an error with several error tuples (a nested instance with several invalid properties)',
 what='validate reports only the first error tuple of each property',
 edits=[('base/base.py', """                if getattr(self, '_validation_error_tuples', None) is not None:
                    self._validation_error_tuples += val_err.error_tuples
""", """                if getattr(self, '_validation_error_tuples', None) is not None:
                    self._validation_error_tuples += val_err.error_tuples[:1]
""")],
 demo='''
class B(properties.HasProperties):
    a = properties.Integer('a')
    b = properties.Integer('b')
class A(properties.HasProperties):
    x = properties.Instance('x', B)
try:
    A(x=B()).validate()
    assert False
except properties.ValidationError as e:
    assert sorted(t.prop for t in e.error_tuples) == ['a', 'b'], e.error_tuples
'''),
dict(id='c10-last-error', property='C10',
 needs='two keywords that both fail with errors that are no ValidationError',
 what='the last other error is re-raised instead of the first',
 edits=[('base/base.py', """                except GENERIC_ERRORS as err:
                    if not self._non_validation_error:
                        self._non_validation_error = err
                    continue
""", """                except GENERIC_ERRORS as err:
                    self._non_validation_error = err
                    continue
""")],
 demo='''
class A(properties.HasProperties):
    x = properties.Integer('x')
    y = properties.Integer('y')
    @properties.validator('x')
    def cx(self, change):
        raise KeyError('x')
    @properties.validator('y')
    def cy(self, change):
        raise TypeError('y')
try:
    A(x=1, y=2)
    assert False
except KeyError:
    pass
except TypeError:
    assert False
'''),
]
