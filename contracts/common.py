"""Contracts of helpers every property relies on (used modularly at call sites)."""
import properties
import properties.extras
from pyvc.api import contract, check, any_value, any_bool, any_int, any_str, any_float, choose, fail, cover, same
from contracts.stubs import Owner, StubRegex


def simple_props():
    reg = properties.String('doc', strip='x')
    reg.regex = StubRegex()
    return [properties.Property('doc'), properties.GettableProperty('doc'), properties.Boolean('doc'),
            properties.Integer('doc', min=any_int('mn')),
            properties.Float('doc', max=any_int('mx')), properties.Complex('doc'),
            properties.String('doc'), reg, properties.String('doc', unicode=False),
            properties.Color('doc'), properties.DateTime('doc'), properties.Uuid('doc'),
            properties.StringChoice('doc', ['a', 'b']), properties.extras.URL('doc'),
            properties.extras.URL('doc', remove_parameters=True, remove_fragment=True)]


@contract(['C04', 'C05', 'C06', 'C07', 'C09', 'C17', 'C20', 'C21', 'C23', 'C24'], ['properties.basic:GettableProperty.error'], inline=['error'], trials=200)
def error_raises():
    """error(...) always raises a ValidationError naming the property, the reason and the instance."""
    p = choose('prop', simple_props())
    p.name = 'attr'
    inst = choose('instance', [None, Owner()])
    try:
        p.error(inst, choose('value', [any_str('value'), any_int('value'), any_float('value'), None, [1], Owner]))
    except properties.ValidationError as e:
        cover('raised')
        check(len(e.error_tuples) == 1, 'with one error tuple')
        t = e.error_tuples[0]
        check(t.reason == 'invalid', 'whose reason is invalid')
        check(t.prop == 'attr', 'that names the property')
        check(t.instance is inst, 'and the instance')
        return
    fail('error always raises')


@contract(['C04', 'C05', 'C06', 'C07', 'C09', 'C17', 'C20', 'C21', 'C23', 'C24'], ['properties.basic:GettableProperty.error'], inline=['error'], trials=200)
def error_class_and_value():
    """error(...) raises the requested class for every value."""
    p = properties.Integer('doc', min=any_int('mn'))
    cls = choose('error_class', [None, properties.ValidationError, ValueError, KeyError])
    extra = choose('extra', ['', 'more'])
    try:
        p.error(None, any_value('value'), cls, extra)
    except Exception as e:
        if cls is None:
            check(type(e) is properties.ValidationError, 'a ValidationError by default')
        else:
            check(type(e) is cls, 'exactly the requested class is raised')
        return
    fail('error always raises')
