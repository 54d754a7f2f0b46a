"""C08: observable containers: mutations are validated, stored, notified, or do nothing."""
import properties
from properties import undefined
from properties.base import containers as CONT
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

MUT = ['properties.base.containers:properties_mutator', 'properties.base.containers:properties_operator']
OBS = ['properties.base.containers:observable_copy', 'properties.base.containers:add_properties_callbacks',
       'properties.base.containers:List.validate', 'properties.base.containers:Dictionary.validate']


class Plain(object):
    """A container by contract: its content is opaque, its methods are arbitrary functions of it, and they may fail."""

    def __init__(self, source=None):
        self.content = None if source is None else source.content

    def mutate(self, *args, **kwargs):
        log('mutate', self.content, args[0], kwargs.get('key', 'absent'), len(args), len(kwargs))
        if uf_rare('mutation raises', self.content, args[0]):
            raise uf_exc('mutation error', self.content, args[0])
        old = self.content
        self.content = uf_value('mutated', old, args[0])
        return uf_value('returned', old, args[0])

    def __iadd__(self, other):
        log('iadd', self.content, other)
        if uf_rare('mutation raises', self.content, other):
            raise uf_exc('mutation error', self.content, other)
        self.content = uf_value('mutated', self.content, other)
        return self

    def operate(self, *args, **kwargs):
        log('operate', self.content, args[0], kwargs.get('key', 'absent'), len(args), len(kwargs))
        if uf_rare('operation raises', self.content, args[0]):
            raise uf_exc('operation error', self.content, args[0])
        if uf_bool('operand unknown', args[0]):
            return NotImplemented
        out = Plain()
        out.content = uf_value('output', self.content, args[0])
        return out


class Observed(Plain):
    pass


Observed.mutate = CONT.properties_mutator(Observed, 'mutate')
Observed.__iadd__ = CONT.properties_mutator(Observed, '__iadd__', True)
Observed.operate = CONT.properties_operator(Observed, 'operate')


class Holder(object):
    """Assignment by contract: it may fail; a success stores an observed copy."""

    def __init__(self):
        self.held = None

    @property
    def attr(self):
        return self.held

    @attr.setter
    def attr(self, value):
        log('assign', self, value.content)
        if uf_rare('assignment raises', value.content):
            raise uf_exc('assignment error', value.content)
        new = Observed(value)
        new._instance = self
        new._name = 'attr'
        self.held = new


def world():
    """A container that is stored, stored elsewhere, no longer stored, or never was."""
    c = Observed()
    c.content = uf_value('content', 0)
    h = Holder()
    kind = choose('container', ['stored', 'replaced', 'unattached', 'attached to nobody', 'unnamed'])
    if kind == 'stored':
        h.held = c
        c._instance = h
        c._name = 'attr'
    elif kind == 'replaced':
        h.held = Observed()
        h.held.content = uf_value('other content', 0)
        c._instance = h
        c._name = 'attr'
    elif kind == 'attached to nobody':
        c._instance = None
        c._name = 'attr'
    elif kind == 'unnamed':
        h.held = c
        c._instance = h
        c._name = ''
    return c, h, kind


@contract('C08', MUT, trials=800)
def mutators():
    """Any mutating method of any container."""
    c, h, kind = world()
    v = uf_value('argument', 0)
    keyed = any_bool('keyword')
    kw = {'key': uf_value('keyword', 0)} if keyed else {}
    old, held = c.content, h.held
    new = uf_value('mutated', old, v)
    call = ('mutate', old, v, kw.get('key', 'absent'), 1, len(kw))
    clear_trace()
    failed, got = None, None
    try:
        got = c.mutate(v, **kw)
    except BaseException as e:
        failed = e
    if uf_rare('mutation raises', old, v):
        check(failed is not None and failed is uf_exc('mutation error', old, v), 'the error of the mutation is raised')
        check(same_seq(trace(), [call]), 'after one mutation, nothing is assigned')
        check(same(c.content, old) and h.held is held, 'and everything is as before')
    elif kind != 'stored':
        check(failed is None and same(got, uf_value('returned', old, v)), 'the result of the method')
        check(same_seq(trace(), [call]), 'one mutation and no assignment')
        check(same(c.content, new) and h.held is held, 'of this container')
    else:
        check(same_seq(trace(), [call, ('assign', h, new)]), 'one mutation of a copy, and one assignment of it')
        check(same(c.content, old), 'the container itself is not mutated')
        if uf_rare('assignment raises', new):
            check(failed is not None and failed is uf_exc('assignment error', new), 'the error of the assignment is raised')
            check(h.held is c, 'and the container is still stored')
        else:
            check(failed is None and same(got, uf_value('returned', old, v)), 'the result of the method')
            check(h.held is not c and same(h.held.content, new), 'the mutated copy is stored')
    # what happens next
    stored = kind == 'stored' and h.held is c
    w = uf_value('second argument', 0)
    now = c.content
    assume(not uf_rare('mutation raises', now, w))
    clear_trace()
    try:
        c.mutate(w)
    except BaseException:
        check(stored, 'only an assignment fails')
    check((len(trace()) == 2) == stored, 'observed as long as it is stored')
    check(same(c.content, now) == stored or same(now, uf_value('mutated', now, w)), 'and a plain container otherwise')


@contract('C08', MUT, trials=800)
def inplace_operators():
    """Any in-place operator, applied to the attribute that holds the container or to the container."""
    c, h, kind = world()
    v = uf_value('argument', 0)
    old, held = c.content, h.held
    new = uf_value('mutated', old, v)
    attribute = kind == 'stored' and any_bool('on the attribute')
    clear_trace()
    failed = None
    alias = c
    try:
        if attribute:
            h.attr += v
        else:
            alias += v
    except BaseException as e:
        failed = e
    if uf_rare('mutation raises', old, v):
        check(failed is not None and failed is uf_exc('mutation error', old, v), 'the error of the operation is raised')
        check(same_seq(trace(), [('iadd', old, v)]) and same(c.content, old) and h.held is held, 'and everything is as before')
        return
    if not attribute:
        check(failed is None and same_seq(trace(), [('iadd', old, v)]), 'one operation, no assignment')
        check(same(alias.content, new) and h.held is held, 'the result has it applied')
        if kind == 'stored':
            check(alias is not c and same(c.content, old), 'and the stored container is unchanged')
            check(c._instance is h and c._name == 'attr', 'and observed')
        else:
            check(alias is c, 'it is the container')
        return
    check(same_seq(trace(), [('iadd', old, v), ('assign', h, new)]), 'one operation on a copy, and one assignment of it')
    check(same(c.content, old), 'the container itself is not modified')
    if uf_rare('assignment raises', new):
        check(failed is not None and failed is uf_exc('assignment error', new), 'the error of the assignment is raised')
        check(h.held is c and c._instance is h and c._name == 'attr', 'and the container is still stored and observed')
    else:
        check(failed is None and h.held is not c and same(h.held.content, new), 'the result is stored')


@contract('C08', MUT, trials=400)
def operators():
    """Operators: the observable class of what the plain operator gives, and no assignment."""
    c, h, kind = world()
    v = uf_value('argument', 0)
    kw = {'key': uf_value('keyword', 0)} if any_bool('keyword') else {}
    old, held = c.content, h.held
    clear_trace()
    failed, got = None, None
    try:
        got = c.operate(v, **kw)
    except BaseException as e:
        failed = e
    check(same_seq(trace(), [('operate', old, v, kw.get('key', 'absent'), 1, len(kw))]), 'one operation, no assignment')
    check(same(c.content, old) and h.held is held, 'nothing is modified')
    if uf_rare('operation raises', old, v):
        check(failed is not None and failed is uf_exc('operation error', old, v), 'its error is raised')
    elif uf_bool('operand unknown', v):
        check(failed is None and got is NotImplemented, 'an operand the plain operator does not know is left to answer')
        cover('not implemented')
    else:
        check(failed is None and type(got) is Observed, 'the result is of the observable class')
        check(same(got.content, uf_value('output', old, v)), 'with the content of the plain result')
        check(getattr(got, '_instance', None) is None and got is not c, 'and is not attached')


# ---------------------------------------------------------------- bounded: real lists, sets and dictionaries
class Sub(list):
    pass


LOG = []


def no_666(change):
    LOG.append(('validate', change['name'], plain(change['previous']), plain(change['value'])))
    v = change['value']
    if isinstance(v, (list, set, dict)) and 66 in v:
        raise properties.ValidationError('66 is not allowed')


class Box(properties.HasProperties):
    _REGISTRY = dict()
    l = properties.List('list', properties.Integer('i', min=0, max=99), observe_mutations=True, required=False)
    raw = properties.List('anything', observe_mutations=True, required=False, default=[3, 1])
    s = properties.Set('set', properties.Integer('i', min=0, max=99), observe_mutations=True, required=False)
    d = properties.Dictionary('dict', key_prop=properties.Integer('k', min=0, max=99), value_prop=properties.String('s', change_case='upper'),
                              observe_mutations=True, required=False)

    @properties.observer(['l', 'raw', 's', 'd'], change_only=True)
    def _on_change(self, change):
        LOG.append(('change', change['name'], plain(change['previous']), plain(change['value']), change['mode']))

    @properties.observer(['l', 'raw', 's', 'd'])
    def _on_set(self, change):
        LOG.append(('set', change['name'], plain(change['previous']), plain(change['value']), change['mode']))

    @properties.validator(['l', 'raw', 's', 'd'])
    def _on_valid(self, change):
        no_666(change)


def plain(v):
    if v is undefined or v is None:
        return v
    for t in (list, set, dict):
        if isinstance(v, t):
            return t(v)
    return v


NUMS = [0, 1, 2, 3, 5, 66, 99, 100, -1, '7', 'x', 2.0]
FEW = [0, 1, 2, 3, 5]


def some(r, hostile=0.2):
    return r.choice(NUMS) if r.random() < hostile else r.choice(FEW)


def word(r):
    return r.choice(['a', 'B', 'cc', 5]) if r.random() < 0.15 else r.choice(['a', 'B', 'cc'])


def list_call(r):
    n = lambda: some(r)
    few = lambda: [some(r, 0.1) for _ in range(r.randint(0, 2))]
    sl = lambda: slice(r.choice([None, 0, 1]), r.choice([None, 1, 2, 9]))
    return r.choice([
        lambda: ('append', (n(),), {}), lambda: ('extend', (few(),), {}), lambda: ('extend', (iter(few()),), {}),
        lambda: ('insert', (r.randint(-2, 3), n()), {}), lambda: ('pop', (), {}), lambda: ('pop', (r.randint(-1, 3),), {}),
        lambda: ('remove', (n(),), {}), lambda: ('reverse', (), {}), lambda: ('sort', (), {}),
        lambda: ('sort', (), {'reverse': True}), lambda: ('sort', (), {'key': lambda x: -x}), lambda: ('clear', (), {}),
        lambda: ('__setitem__', (r.randint(-1, 3), n()), {}), lambda: ('__setitem__', (sl(), few()), {}),
        lambda: ('__delitem__', (r.randint(-1, 3),), {}), lambda: ('__delitem__', (sl(),), {}),
        lambda: ('append', (), {}), lambda: ('append', (1, 2), {}), lambda: ('sort', (), {'nonsense': 1})])()


def set_call(r):
    n = lambda: some(r)
    few = lambda: r.choice([set, list, tuple, frozenset])([some(r, 0.1) for _ in range(r.randint(0, 3))])
    return r.choice([
        lambda: ('add', (n(),), {}), lambda: ('add', ([1],), {}), lambda: ('clear', (), {}), lambda: ('discard', (n(),), {}),
        lambda: ('remove', (n(),), {}), lambda: ('pop', (), {}), lambda: ('update', (few(), few()), {}), lambda: ('update', (), {}),
        lambda: ('difference_update', (few(),), {}), lambda: ('intersection_update', (few(),), {}),
        lambda: ('symmetric_difference_update', (few(),), {}), lambda: ('update', (5,), {})])()


def dict_call(r):
    n = lambda: some(r)
    return r.choice([
        lambda: ('__setitem__', (n(), word(r)), {}), lambda: ('__delitem__', (n(),), {}), lambda: ('clear', (), {}),
        lambda: ('pop', (n(),), {}), lambda: ('pop', (n(), 'gone'), {}), lambda: ('popitem', (), {}),
        lambda: ('setdefault', (n(), word(r)), {}), lambda: ('setdefault', (n(),), {}),
        lambda: ('update', ({n(): word(r)},), {}), lambda: ('update', ([(n(), word(r)), (n(), word(r))],), {}),
        lambda: ('update', (), {}), lambda: ('__setitem__', ([], 'a'), {}), lambda: ('update', (), {'k': 'v'})])()


IOPS = {'l': ['+=', '*='], 'raw': ['+=', '*='], 's': ['|=', '&=', '-=', '^='], 'd': ['|=']}
CALLS = {'l': list_call, 'raw': list_call, 's': set_call, 'd': dict_call}
START = {'l': [[], [1], [3, 1, 2], [5, 5]], 'raw': [[], [1, 2], [3, 1]], 's': [set(), {1}, {1, 2, 3}], 'd': [{}, {1: 'A'}, {1: 'A', 2: 'B'}]}


def operand(r, name, op):
    if r.random() < 0.06:
        return r.choice([5.5, None, object()])
    if op == '*=':
        return r.choice([0, 1, 2])
    few = [some(r, 0.12) for _ in range(r.randint(0, 2))]
    if name in ('l', 'raw'):
        return r.choice([list, tuple])(few)
    if name == 's':
        return set(few)
    return {k: word(r) for k in few}


def apply_iop(holder, name, op, other, local=False):
    """holder.name op= other, as a statement."""
    env = {'h': holder, 'o': other}
    if local:
        exec('x = h.%s\nx %s o' % (name, op), env)
        return env['x']
    exec('h.%s %s o' % (name, op), env)


def outcome(f):
    try:
        return 'returned', f()
    except properties.ValidationError as e:
        return 'invalid', None
    except Exception as e:
        return type(e).__name__, None


def same_result(a, b):
    return type(a) is type(b) and repr(a) == repr(b) or plain(a) == plain(b) and type(plain(a)) is type(plain(b))


def clone_args(args):
    """Iterators can be used once only."""
    out, again = [], []
    for a in args:
        if hasattr(a, '__next__'):
            items = list(a)
            out.append(iter(items))
            again.append(iter(items))
        else:
            out.append(a)
            again.append(a)
    return tuple(out), tuple(again)


@bounded('C08', MUT + OBS, trials=3000)
def histories():
    """Random histories of mutations, against assignments of plain containers to a twin."""
    r = rng()
    name = r.choice(['l', 'raw', 's', 'd'])
    x, twin = Box(), Box()
    start = r.choice(START[name])
    if name != 'raw' or r.random() < 0.6:
        setattr(x, name, start)
        setattr(twin, name, start)
    aliases = []
    kind = {'l': list, 'raw': list, 's': set, 'd': dict}[name]
    for step in range(r.randint(1, 7)):
        stored = getattr(x, name)
        if stored is None:
            setattr(x, name, start)
            setattr(twin, name, start)
            stored = getattr(x, name)
        before = kind(stored)
        what = r.choice(['call', 'call', 'call', 'iop', 'alias', 'assign', 'operator', 'local iop', 'local op'])
        note('step', (name, what, repr(before)))
        if what == 'assign':
            new = r.choice(START[name])
            setattr(x, name, new)
            setattr(twin, name, new)
            if getattr(x, name) is not stored:
                aliases.append((stored, kind(stored)))
        elif what == 'alias' and aliases:
            i = r.randrange(len(aliases))
            old, model = aliases[i]
            method, args, kw = CALLS[name](r)
            args, again = clone_args(args)
            del LOG[:]
            a = outcome(lambda: getattr(old, method)(*args, **kw))
            b = outcome(lambda: getattr(model, method)(*again, **kw))
            check(a[0] == b[0] and (same_result(a[1], b[1]) or method == 'pop' and name == 's'), 'an old container behaves as a plain one', (method, a, b))
            if method == 'pop' and name == 's' and a[0] == 'returned':
                model = kind(old)
            check(LOG == [], 'and notifies nobody')
            check(kind(old) == model, 'and has its content')
            aliases[i] = (old, model)
            check(kind(getattr(x, name)) == before, 'and is independent of what is stored')
        elif what == 'operator':
            check_operator(r, stored, name, before)
        elif what in ('local iop', 'local op'):
            op = r.choice(IOPS[name])
            other = operand(r, name, op)
            del LOG[:]
            a = outcome(lambda: apply_iop(x, name, op, other, True))
            b = outcome(lambda: plain_iop(before, op, other))
            check(a[0] == b[0], 'an in-place operator on the container', (op, other, a, b))
            if a[0] == 'returned':
                check(plain(a[1]) == b[1], 'gives the result')
                check(type(a[1]) is type(stored) and a[1] is not stored, 'as a new container of the observable class')
            check(LOG == [] and getattr(x, name) is stored and kind(stored) == before, 'and leaves what is stored')
        elif what in ('call', 'iop', 'alias'):
            if what == 'iop':
                op = r.choice(IOPS[name])
                other = operand(r, name, op)
                f = lambda: apply_iop(x, name, op, other)
                g = lambda m: plain_iop(m, op, other)
                label = op, other
            else:
                method, args, kw = CALLS[name](r)
                args, again = clone_args(args)
                f = lambda: getattr(stored, method)(*args, **kw)
                g = lambda m: getattr(m, method)(*again, **kw)
                label = method, args
            note('call', repr(label))
            model = kind(before)
            expected, result = outcome(lambda: g(model))
            if what == 'iop' and expected == 'returned':
                model, result = result, None
            del LOG[:]
            got = outcome(f)
            events = list(LOG)
            del LOG[:]
            if expected == 'returned':
                if name == 's' and got[0] == 'returned' and label[0] == 'pop':
                    check(got[1] in before, 'an element is popped')
                    model, result = before - {got[1]}, got[1]
                a = outcome(lambda: setattr(twin, name, model))
                wanted = list(LOG)
                check(got[0] == a[0], 'the mutation succeeds exactly when the assignment of its result does', (label, got, a))
                check(events == wanted, 'with the same notifications', (events, wanted))
                if got[0] == 'returned':
                    check(same_result(got[1], result), 'the result of the method', (got[1], result))
            else:
                check(got[0] == expected, 'the error of the mutation', (label, got, expected))
                check(events == [], 'without notifications')
            now = getattr(x, name)
            check(kind(now) == kind(getattr(twin, name)), 'what is stored is what the assignment stores', (label, now, getattr(twin, name)))
            if isinstance(now, (list,)):
                check([type(a) for a in now] == [type(a) for a in getattr(twin, name)], 'with the same types')
            if got[0] != 'returned':
                check(now is stored and kind(now) == before, 'a failed mutation changes nothing', (label, now, before))
            elif now is not stored:
                check(kind(stored) == before, 'the replaced container keeps its content', (label, stored, before))
                aliases.append((stored, before))
        # still observed
        c = getattr(x, name)
        check(type(c).__name__.startswith('Observable'), 'what is stored is observable')
    del LOG[:]
    c = getattr(x, name)
    c.clear()
    check(any(e[0] == 'set' for e in LOG), 'what is stored is still observed', (name,))
    check(len(getattr(x, name)) == 0 and getattr(x, name) is not c, 'and mutated by assignment')
    del LOG[:]


def plain_iop(m, op, other):
    env = {'m': type(m)(m), 'o': other}
    exec('m %s o' % op, env)
    return env['m']


def check_operator(r, c, name, before):
    kind = type(before)
    if kind is list:
        other = [some(r) for _ in range(r.randint(0, 2))]
        f = r.choice([lambda c: c + other, lambda c: c * 2, lambda c: 2 * c, lambda c: c.copy(), lambda c: c + tuple(other)])
    elif kind is set:
        other = {some(r) for _ in range(r.randint(0, 2))}
        f = r.choice([lambda c: c | other, lambda c: c & other, lambda c: c - other, lambda c: c ^ other, lambda c: other | c,
                      lambda c: other & c, lambda c: other - c, lambda c: other ^ c, lambda c: c.union(other, [5]),
                      lambda c: c.intersection(other), lambda c: c.difference(other), lambda c: c.symmetric_difference(other),
                      lambda c: c.copy(), lambda c: c.union(5), lambda c: c | [1], lambda c: c - 'text', lambda c: None & c])
        if r.random() < 0.15:
            # the other operand answers: what it makes of it is of its own class
            view = {some(r): 0, 5: 1}
            g = r.choice([lambda c: c | view.keys(), lambda c: c & view.keys(), lambda c: c ^ view.keys(), lambda c: view.keys() - c])
            a, b = outcome(lambda: g(c)), outcome(lambda: g(before))
            check(a[0] == b[0] and (a[0] != 'returned' or plain(a[1]) == b[1]), 'operators work as on plain containers', (a, b))
            check(kind(c) == before, 'and change nothing')
            return
    else:
        other = {some(r): word(r)}
        f = r.choice([lambda c: c.copy(), lambda c: c | other, lambda c: c.fromkeys([1, 2], 'v')])
    del LOG[:]
    a, b = outcome(lambda: f(c)), outcome(lambda: f(before))
    check(a[0] == b[0], 'operators work as on plain containers', (a, b))
    check(LOG == [] and kind(c) == before, 'and change nothing')
    if a[0] == 'returned':
        check(plain(a[1]) == b[1], 'with the same result')
        if not (kind is dict and name == 'd' and a[1] == {}):
            check(type(a[1]) is type(c), 'of the observable class', (type(a[1]), type(c)))
        n = len(a[1])
        a[1].clear()
        check(LOG == [] and kind(c) == before, 'that is not attached')


@bounded('C08', OBS, trials=400)
def moving_around():
    """Containers of other instances, nested ones, deleted ones, subclasses, and defaults."""
    r = rng()
    a, b = Box(), Box()
    a.l = [1, 2]
    c = a.l
    case = r.choice(['assign to another', 'delete', 'same again', 'default', 'subclass', 'dict keys', 'disabled', 'construct', 'set method'])
    note('case', case)
    if case == 'assign to another':
        b.l = c
        check(b.l is not c and b.l == [1, 2] and a.l is c, 'another instance stores a copy')
        b.l.append(3)
        check(a.l == [1, 2] and b.l == [1, 2, 3], 'that is independent')
        c.append(9)
        check(a.l == [1, 2, 9] and b.l == [1, 2, 3], 'both ways')
        b.raw = a.l
        b.raw.append('text')
        check(b.raw == [1, 2, 9, 'text'] and a.l == [1, 2, 9], 'also under another name')
    elif case == 'delete':
        del a.l
        del LOG[:]
        c.append(500)
        check(c == [1, 2, 500] and LOG == [] and a.l is None, 'a deleted container is a plain one')
    elif case == 'same again':
        a.l = c
        d = a.l
        check(d == [1, 2], 'the value')
        d.append(3)
        check(a.l == [1, 2, 3], 'is observed')
        if d is not c:
            del LOG[:]
            c.append(500)
            check(LOG == [] and a.l == [1, 2, 3], 'the earlier one is not')
    elif case == 'default':
        d = a.raw
        d.append(7)
        check(a.raw == [3, 1, 7] and b.raw == [3, 1] and Box().raw == [3, 1], 'defaults are observed and independent')
        check(a.raw is not d, 'and mutated by assignment')
    elif case == 'subclass':
        a.raw = Sub([1])
        d = a.raw
        check(isinstance(d, Sub), 'subclasses are kept')
        d.append(2)
        check(a.raw == [1, 2] and isinstance(a.raw, Sub) and a.raw is not d, 'and observed')
        e = a.raw + [3]
        check(type(e) is type(d) and e == [1, 2, 3], 'also by operators')
        a.raw.append(4)
        check(a.raw == [1, 2, 4], 'again')
    elif case == 'dict keys':
        a.d = {1: 'x', 2: 'y'}
        d = a.d
        d[3] = 'z'
        check(a.d == {1: 'X', 2: 'Y', 3: 'Z'} and a.d is not d and d == {1: 'X', 2: 'Y'}, 'items are validated')
        a.d[4] = 'w'
        a.d.update({5: 'v'})
        check(a.d == {1: 'X', 2: 'Y', 3: 'Z', 4: 'W', 5: 'V'}, 'again and again')
    elif case == 'disabled':
        del LOG[:]
        with properties.listeners_disabled():
            c.append(3)
        check(a.l == [1, 2, 3] and a.l is not c and LOG == [], 'also while listeners are disabled')
        a.l.append(4)
        check(len(LOG) > 0 and a.l == [1, 2, 3, 4], 'and after')
    elif case == 'construct':
        x = Box(l=[5], s={1}, d={1: 'a'})
        del LOG[:]
        x.l.append(6)
        x.s.add(2)
        x.d[2] = 'b'
        check((x.l, x.s, x.d) == ([5, 6], {1, 2}, {1: 'A', 2: 'B'}), 'values given to the constructor are observed')
        check([e[1] for e in LOG if e[0] == 'set'] == ['l', 's', 'd'], 'each once')
    else:
        for f in (lambda: c.append(100), lambda: c.insert(0, 'x'), lambda: c.extend([1, -1]), lambda: c.__setitem__(0, 66)):
            try:
                f()
                fail('an invalid element is rejected')
            except ValueError:
                check(a.l is c and c == [1, 2], 'and changes nothing')
    x = Box.deserialize({'l': [1], 's': [2], 'd': {1: 'q'}, '__class__': 'Box'})
    del LOG[:]
    x.l.append(2)
    check(x.l == [1, 2] and len(LOG) > 0, 'deserialized containers are observed')
    del LOG[:]


def twins(base):
    """Two classes that nothing but their identity tells apart."""
    return [type(base)('Box', (base,), {}) for _ in range(2)]


# classes whose observable class exists already: building one is outside the verifier's language
KNOWN = {base: twins(base) for base in (list, dict, set)}
for _base in KNOWN:
    for _kind in [_base] + KNOWN[_base]:
        try:
            CONT.observable_copy(_kind(), 'attr', None)
        except Exception:
            pass

CONTENT = [(list, [1, 2]), (dict, {'a': 1}), (set, {1, 2}), (list, []), (dict, {}), (set, set())]


def copies(base, content, first, second):
    owner = uf_value('owner', 0)
    for kind in choose('order', [(first, second), (base, first), (second, base, first)]):
        value = kind(content)
        out = CONT.observable_copy(value, 'attr', owner)
        check(out is not value and isinstance(out, kind) and type(out) is not kind, 'a new container of an observable subclass')
        check(out == value and value == content and type(value) is kind, 'of the same content; the value is as before')
        check(out._name == 'attr' and same(out._instance, owner), 'attached to the instance')
        check(not hasattr(value, '_instance'), 'the value is not')
        again = CONT.observable_copy(kind(content), 'other', None)
        check(type(again) is type(out), 'one observable class per class')
        copied = CONT.observable_copy(out, 'other', None)
        check(type(copied) is type(out) and copied == out and copied is not out, 'observable containers are copied as they are')
        check(out._name == 'attr' and same(out._instance, owner), 'and keep their attachment')


@contract('C08', OBS, trials=200)
def observable_classes():
    """The observable copy of any container: same content, a subclass of the container's own class, one per class."""
    base, content = choose('container', CONTENT)
    copies(base, content, KNOWN[base][0], KNOWN[base][1])


@bounded('C08', OBS, trials=200)
def new_observable_classes():
    """The same for classes that have no observable class yet."""
    base, content = choose('container', CONTENT)
    first, second = twins(base)
    copies(base, content, first, second)
