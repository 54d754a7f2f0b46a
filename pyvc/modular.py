"""Callee contracts used at call sites instead of the callee's body.

Each entry is proved of the real body by a contract of its own (contracts/
common.py), registered under every property that uses it."""
import z3
from .core import *          # noqa
from .core import V


def m_error(e, args, kw):
    """GettableProperty.error: never returns; raises error_class (ValidationError by default)
    carrying (message, 'invalid', self.name, instance)."""
    import properties
    a = dict(zip(['self', 'instance', 'value', 'error_class', 'extra'], args))
    a.update(kw)
    cls = e.force(a.get('error_class'))
    if cls is None:
        cls = properties.ValidationError
    if not isinstance(cls, type):
        raise Unsupported('error_class')
    msg = SStr(e.fresh('message', STR))
    e.stats.models_used.add('contract of GettableProperty.error')
    if issubclass(cls, properties.ValidationError):
        name = e.getattr_(a['self'], 'name')
        exc = e.instantiate(cls, [msg, 'invalid', name, a['instance']], {})
    else:
        exc = e.instantiate(cls, [msg], {})
    raise PyExc(exc)


def table():
    import properties
    return {'error': (properties.GettableProperty.error, m_error)}


def install(e, inline=()):
    for k, (fn, m) in table().items():
        if k not in inline:
            e.models[fn] = m
