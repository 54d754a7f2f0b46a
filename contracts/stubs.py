"""Abstract collaborators: arbitrary but fixed behaviour (uninterpreted functions)."""
import properties
from pyvc.api import *          # noqa


class Owner(properties.HasProperties):
    """Stands for the instance that owns a property."""

    _REGISTRY = dict()


class StubRegex(object):
    """Any object with a search method."""

    pattern = 'stub'

    def search(self, value):
        if uf_bool('regex', value):
            return self
        return None


class OtherOwner(properties.HasProperties):
    """Another one, of another class."""

    _REGISTRY = dict()


def prop_fields(key):
    return {'_name': key, '_doc': 'an abstract property', '_meta': {}, '_required': uf_bool('required', key)}


class AbsProp(properties.Property):
    """A property whose validate and equal are arbitrary functions."""

    def validate(self, instance, value):
        if uf_bool('rejects', self, value):
            raise uf_exc('rejection', self, value)
        return uf_value('validated', self, value)

    def equal(self, value_a, value_b):
        return uf_bool('equal', self, value_a, value_b) and uf_bool('equal', self, value_b, value_a)

    def sphinx(self):
        return 'an abstract property'


def abs_prop(key):
    return abstract(AbsProp, 'prop', (key,), prop_fields)


def state(instance, name):
    """The stored value of a name (undefined when unset)."""
    return instance._backend.get(name, properties.undefined)


class AbsListener(object):
    """A registered callback: may raise."""

    def func(self, instance, change):
        name = change['name']
        log(self, instance, name, change['previous'], change['value'], change['mode'], state(instance, name))
        if uf_rare('listener raises', self, change['value'], change['mode']):
            raise uf_exc('listener error', self, change['value'], change['mode'])


class AbsReplacer(object):
    """A validate listener that replaces the value."""

    def func(self, instance, change):
        name = change['name']
        log(self, instance, name, change['previous'], change['value'], change['mode'], state(instance, name))
        change['value'] = uf_value('replacement', self, change['value'])


def listeners(kind, replacer):
    """An arbitrary number of callbacks, possibly with one that replaces the value among them."""
    a = mkseq(kind + ' listeners', lambda i: abstract(AbsListener, kind, (i,)))
    if replacer:
        a = a + [abstract(AbsReplacer, kind + ' replacer')]
        a = a + mkseq('more ' + kind + ' listeners', lambda i: abstract(AbsListener, 'more ' + kind, (i,)))
    return a


def listener_table(tag, replacer):
    return {'validate': listeners(tag + ' validate', replacer),
            'observe_change': listeners(tag + ' observe_change', False),
            'observe_set': listeners(tag + ' observe_set', False)}


# ---------------------------------------------------------------- assignment and notification by contract
class AssignProp(AbsProp):
    """A property whose assignment is given by its contract only: it is recorded and may fail."""

    def get_property(self):
        scope = self

        def fget(self):
            return uf_value('current', scope)

        def fset(self, value):
            log('assign', scope.name, value)
            if uf_rare('assignment fails', scope, value):
                raise uf_exc('assignment error', scope, value)
        return property(fget=fget, fset=fset)


def assign_prop(key):
    return abstract(AssignProp, 'prop', (key,), prop_fields)


class HookOwner(Owner):
    """Records calls of the error hook."""

    def _error_hook(self, error_tuples):
        log('hook', self)
        self.hooked = list(error_tuples)
