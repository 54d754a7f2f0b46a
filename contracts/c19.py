"""C19: links propagate changes to the target, once, without loops, until unlinked."""
import properties
from properties import undefined
from properties.link import directional_link, link
from contracts.stubs import *    # noqa
from pyvc.api import *           # noqa

LINK = ['properties.link:directional_link.__init__', 'properties.link:directional_link._update',
        'properties.link:directional_link._validate', 'properties.link:directional_link.transform',
        'properties.link:directional_link.unlink', 'properties.link:directional_link.relink',
        'properties.link:properties_observer', 'properties.link:link.__init__']
NAMES = ['a', 'b', 'c']
BACK = [None]


class TargetProp(AbsProp):
    """Assignment by contract: recorded, may fail, and may assign the source again (a loop)."""

    def get_property(self):
        scope = self

        def fget(self):
            return uf_value('target value', scope)

        def fset(self, value):
            log('assign', self, scope, value)
            if BACK[0] is not None:
                BACK[0]()
            if uf_rare('assignment fails', value):
                raise uf_exc('assignment error', value)
        return property(fget=fget, fset=fset)


def ends():
    """A source with any value, and a target whose assignment is given by contract."""
    prop = abs_prop('x')
    target_prop = abstract(TargetProp, 'target', (), lambda: prop_fields('y'))
    source = new_instance(abs_class(Owner, {'x': prop}), _backend={}, _listeners={})
    target = new_instance(abs_class(OtherOwner, {'y': target_prop}), _backend={}, _listeners={})
    if any_bool('source is set'):
        source._backend['x'] = uf_value('initial', 0)
        assume(uf_value('initial', 0) is not undefined)
    BACK[0] = None
    return source, prop, target, target_prop


def transformed(kind, value):
    return value if kind == 'none' else uf_value('transformed', value)


def transform_of(kind):
    if kind == 'none':
        return None

    def transform(value):
        log('transform', value)
        if uf_rare('transform fails', value):
            raise uf_exc('transform error', value)
        return uf_value('transformed', value)
    return transform


def expected(kind, target, target_prop, value):
    """(calls, error) of one update from that source value."""
    calls = []
    if kind != 'none':
        calls.append(('transform', value))
        if uf_rare('transform fails', value):
            return calls, uf_exc('transform error', value)
    w = transformed(kind, value)
    calls.append(('assign', target, target_prop, w))
    if uf_rare('assignment fails', w):
        return calls, uf_exc('assignment error', w)
    return calls, None


def no_calls():
    return [], None


def assign(source, prop, v, change_only):
    """Assign the source; (calls, error, does it fire?, stored value)."""
    prev = state(source, 'x')
    clear_trace()
    err = None
    try:
        source.x = v
    except Exception as e:
        err = e
    if uf_bool('rejects', prop, v):
        check(err is uf_exc('rejection', prop, v), 'the rejection propagates')
        check(same_seq(trace(), []), 'no update for a rejected value')
        return None
    w = uf_value('validated', prop, v)
    assume(w is not undefined)
    fires = not change_only or prev is undefined or not prop.equal(prev, w)
    check(same(state(source, 'x'), w), 'the source is set')
    return err, fires, w


@contract('C19', LINK, trials=1200, slow=True)
def propagation():
    """Creation with or without update_now, then two assignments, with failing updates."""
    source, prop, target, target_prop = ends()
    kind = choose('transform', ['none', 'function'])
    now, change_only = any_bool('update_now'), any_bool('change_only')
    clear_trace()
    err = None
    first = state(source, 'x')
    try:
        if kind == 'none' and any_bool('short form'):
            lk = directional_link((source, 'x'), (target, 'y'), update_now=now, change_only=change_only)
        else:
            lk = directional_link((source, 'x'), (target, 'y'), now, change_only, transform_of(kind))
    except Exception as e:
        err = e
    calls, want = expected(kind, target, target_prop, None if first is undefined else first) if now else no_calls()
    check(same_seq(trace(), calls), 'the target is updated at creation exactly with update_now')
    check(err is want, 'the error of an update at creation propagates, and nothing else does')
    check(same(state(source, 'x'), first), 'the source is unchanged')
    if err is not None:
        return
    v = any_value('value')
    assume(v is not undefined)
    r = assign(source, prop, v, change_only)
    if r is None:
        return
    err, fires, w = r
    calls, want = expected(kind, target, target_prop, w) if fires else no_calls()
    check(same_seq(trace(), calls), 'the target is set once to the transformed value, exactly when the link fires')
    check(err is want, 'the error of an update propagates')


@contract('C19', LINK, trials=600)
def after_a_failure():
    """A failing update leaves the link usable."""
    source, prop, target, target_prop = ends()
    lk = directional_link((source, 'x'), (target, 'y'), False, False)
    for i in range(2):
        v = uf_value('assigned', i)
        assume(v is not undefined)
        r = assign(source, prop, v, False)
        if r is not None:
            err, fires, w = r
            calls, want = expected('none', target, target_prop, w)
            check(same_seq(trace(), calls), 'every assignment updates, also after one that failed')
            check(err is want, 'with its own error')


@contract('C19', LINK, trials=600)
def unlinking():
    """unlink stops and relink resumes, any number of times."""
    source, prop, target, target_prop = ends()
    lk = directional_link((source, 'x'), (target, 'y'), False, False)
    active = True
    for i in range(3):
        action = choose('action %d' % i, ['unlink', 'relink', 'nothing'])
        if action == 'unlink':
            lk.unlink()
            active = False
        elif action == 'relink':
            lk.relink()
            active = True
    v = any_value('value')
    assume(v is not undefined)
    r = assign(source, prop, v, False)
    if r is None:
        return
    err, fires, w = r
    calls, want = expected('none', target, target_prop, w) if active else no_calls()
    check(same_seq(trace(), calls), 'updated exactly when linked')
    check(err is want, 'with its error')


@contract('C19', LINK, trials=600)
def without_loops():
    """An update that assigns the source again does not re-enter the link."""
    source, prop, target, target_prop = ends()
    lk = directional_link((source, 'x'), (target, 'y'), False, False)
    depth = [0]

    def back():
        depth[0] = depth[0] + 1
        check(depth[0] == 1, 'updates do not re-enter the link')
        source.x = uf_value('second', 0)
    BACK[0] = back
    v = any_value('value')
    assume(v is not undefined and uf_value('second', 0) is not undefined)
    assume(not uf_bool('rejects', prop, v) and uf_value('validated', prop, v) is not undefined)
    assume(not uf_bool('rejects', prop, uf_value('second', 0)))
    assume(uf_value('validated', prop, uf_value('second', 0)) is not undefined)
    clear_trace()
    err = None
    try:
        source.x = v
    except Exception as e:
        err = e
    BACK[0] = None
    calls, want = expected('none', target, target_prop, uf_value('validated', prop, v))
    check(same_seq(trace(), calls), 'the target is set once')
    check(err is want, 'with its error')
    check(same(state(source, 'x'), uf_value('validated', prop, uf_value('second', 0))), 'the source has what was assigned last')


class Plain(object):
    x = 1


@contract('C19', LINK, trials=500)
def endpoints():
    """Exactly the valid endpoints are accepted; others raise ValueError and nothing is linked."""
    source, prop, target, target_prop = ends()
    good = (source, 'x')
    other = choose('other', [
        (target, 'y'), (source, 'x'), (target, 'nothing'), (target, 5), (target, None), (target,), (target, 'y', 'y'), [target, 'y'],
        'y', None, 5, target, (Plain(), 'x'), (None, 'x'), ('x', target), (type(target), 'y'), ()])
    ok = isinstance(other, tuple) and len(other) == 2 and other[0] is target and other[1] == 'y'
    as_source = any_bool('as the source')
    clear_trace()
    try:
        lk = directional_link(other, good) if as_source else directional_link(good, other)
        check(ok, 'invalid endpoints are rejected')
        check(lk.source == (other if as_source else good) and lk.target == (good if as_source else other), 'the endpoints are kept')
        check(same_seq(trace(), []), 'nothing is updated')
    except ValueError:
        check(not ok, 'valid endpoints are accepted')
        check(len(source._listeners) == 0 and len(target._listeners) == 0, 'and nothing is linked')


@contract('C19', LINK, trials=300)
def transforms():
    """Exactly functions of one argument are accepted as transform."""
    source, prop, target, target_prop = ends()
    kind = choose('kind', ['one', 'two', 'none', 'object', 'number', 'class'])
    fn = {'one': lambda v: v, 'two': lambda v, w: v, 'none': None, 'object': Plain(), 'number': 5, 'class': Plain}[kind]
    try:
        lk = directional_link((source, 'x'), (target, 'y'), transform=fn)
        check(kind in ('one', 'none', 'class'), 'what cannot be called with one argument is rejected')
        check(kind == 'none' or lk.transform is fn, 'the transform is kept')
        check(kind != 'none' or same(lk.transform(uf_value('any', 0)), uf_value('any', 0)), 'the default is the identity')
    except ValueError:
        check(kind in ('two', 'object', 'number'), 'functions of one argument are accepted')


@contract('C19', LINK, trials=400)
def every_pair():
    """link connects every ordered pair of its items once."""
    props = {n: abs_prop(n) for n in NAMES}
    cls = abs_class(Owner, props)
    a = new_instance(cls, _backend={}, _listeners={})
    b = new_instance(cls, _backend={}, _listeners={})
    items = [(a, 'a'), (a, 'b'), (b, 'a'), (b, 'c')][:choose('items', [0, 1, 2, 3, 4])]
    kw = {}
    if any_bool('change_only given'):
        kw['change_only'] = any_bool('change_only')
    if any_bool('transform given'):
        kw['transform'] = choose('transform', [None, Plain, lambda v: v])
    try:
        lk = link(*items, **kw)
    except ValueError:
        check(len(items) < 2 or kw.get('transform', None) is not None, 'two or more items are linked')
        check(len(a._listeners) == 0 and len(b._listeners) == 0, 'nothing is linked if rejected')
        return
    check(len(items) >= 2, 'one item is not linked')
    check(kw.get('transform', None) is None, 'a link has no transform')
    pairs = [(d.source, d.target) for d in lk.dlinks]
    for i in items:
        for j in items:
            n = 0
            for p in pairs:
                if p[0] == i and p[1] == j:
                    n += 1
            check(n == (0 if i == j else 1), 'each ordered pair of different items once')
    check(len(pairs) == len(items) * (len(items) - 1), 'and nothing else')
    for inst in (a, b):
        for name in NAMES:
            got = inst._listeners.get(name, {})
            mine = len(items) - 1 if (inst, name) in items else 0
            change = 'observe_change' if kw.get('change_only', True) else 'observe_set'
            for mode in ('validate', 'observe_change', 'observe_set'):
                check(len(got.get(mode, [])) == (mine if mode == change else 0), 'each item is observed for each other item')


@contract('C19', LINK, trials=400, slow=True)
def all_agree():
    """After a change of one item of a link all items agree, unless unlinked."""
    props = {n: properties.Property(n, name=n) for n in NAMES}
    cls = abs_class(Owner, props)
    a = new_instance(cls, _backend={}, _listeners={})
    b = new_instance(cls, _backend={}, _listeners={})
    items = [(a, 'a'), (a, 'b'), (b, 'a')][:choose('items', [2, 3])]
    lk = link(*items)
    state = choose('state', ['linked', 'unlinked', 'relinked'])
    if state != 'linked':
        lk.unlink()
    if state == 'relinked':
        lk.relink()
    v = Plain()
    first = choose('first', items)
    setattr(first[0], first[1], v)
    for i in items:
        if i == first or state != 'unlinked':
            check(same(getattr(i[0], i[1]), v), 'after a change of one all items agree')
        else:
            check(getattr(i[0], i[1]) is None, 'unlinked items are not updated')


# ---------------------------------------------------------------- real classes, and traitlets
class Node(properties.HasProperties):
    _REGISTRY = dict()
    a = properties.Integer('a', required=False)
    b = properties.Integer('b', max=20, required=False)
    c = properties.Float('c', required=False)
    _d = properties.String('d', required=False)


try:
    import traitlets

    class Trait(traitlets.HasTraits):
        a = traitlets.Int(0)
        b = traitlets.Int(0, max=20)
        c = traitlets.Float(0.0)
        _d = traitlets.Unicode('')
except ImportError:
    Trait = None


class Rejected(Exception):
    pass


class Sim(object):
    """Values and links, simulated."""

    def __init__(self):
        self.values, self.links = {}, []

    def read(self, end):
        return self.values.get(end)

    def coerce(self, end, v):
        i, name, trait = end
        if name == '_d':
            if not isinstance(v, str):
                raise Rejected(end, v)
            return v
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise Rejected(end, v)
        if trait:
            if name in 'ab':
                if v != int(v):
                    raise Rejected(end, v)
                v = int(v)
        elif name in 'ab':
            if abs(v - int(v)) > 1e-9:
                raise Rejected(end, v)
            v = int(v)
        if name == 'b' and v > 20:
            raise Rejected(end, v)
        return float(v) if name == 'c' else v

    def assign(self, end, v):
        v = self.coerce(end, v)
        old = self.values.get(end)
        self.values[end] = v
        changed = old is None or old != v
        mine = [l for l in self.links if l['source'] == end]
        if changed:
            for l in mine:
                if l['change_only'] or end[2]:
                    self.update(l)
        for l in mine:
            if not l['change_only'] and not end[2]:
                self.update(l)

    def update(self, l):
        if l['off'] or l['busy']:
            return
        l['busy'] = True
        try:
            self.assign(l['target'], l['f'](self.read(l['source'])))
        finally:
            l['busy'] = False


def plus(v):
    return v + 1


def half(v):
    return v / 2


def fails(v):
    raise Rejected('transform', v)


def text(v):
    return str(v)


def ident(v):
    return v


@bounded('C19', LINK, trials=2500)
def real_networks():
    """Random networks of links, also in cycles, between properties and traits; random assignments; against a simulation."""
    r = rng()
    n = r.randint(1, 3)
    nodes = [Trait() if Trait is not None and r.random() < 0.25 else Node() for _ in range(n)]
    kinds = [isinstance(x, properties.HasProperties) for x in nodes]
    sim, real, story = Sim(), [], []

    def end():
        i = r.randrange(n)
        return i, r.choice(['a', 'a', 'b', 'b', 'c', 'c', '_d']), not kinds[i]

    def value(e):
        return r.choice([0, 1, 2, 7, 19, 20, 21, 30, 2.0, 2.5, 'x', 'x', 'y', 5.0])

    def start(e):
        return sim.values.get(e)
    for i in range(n):
        for name in ('a', 'b', 'c', '_d'):
            if not kinds[i]:
                sim.values[(i, name, True)] = {'a': 0, 'b': 0, 'c': 0.0, '_d': ''}[name]
            else:
                v = {'a': 0, 'b': 0, 'c': 0.0, '_d': ''}[name]
                setattr(nodes[i], name, v)
                sim.values[(i, name, False)] = v
    for _ in range(r.randint(2, 12)):
        act = r.random()
        a, b = end(), end()
        if act < 0.3 and len(sim.links) < 8:
            f = r.choice([None, None, None, plus, half, fails, text])
            now = r.random() < 0.4
            only = True if not kinds[a[0]] else r.random() < 0.6
            story.append(('link', a[:2], b[:2], f and f.__name__, now, only))
            note('story', story)
            l = {'source': a, 'target': b, 'f': f or ident, 'off': False, 'busy': False, 'change_only': only}
            want = a == b
            if not want and now:
                try:
                    sim.update(l)
                except (Rejected, TypeError):
                    want = True
            try:
                d = directional_link((nodes[a[0]], a[1]), (nodes[b[0]], b[1]), update_now=now, change_only=only, transform=f)
                check(not want, 'a failing creation raises')
                sim.links.append(l)
                real.append(('one', d, [l]))
            except (ValueError, Rejected, TypeError, KeyError) + ((traitlets.TraitError,) if Trait else ()):
                check(want, 'a valid link is created')
        elif act < 0.4 and len(sim.links) < 6:
            ends_ = list(dict.fromkeys([a, b, end()]))
            if len(ends_) < 2:
                continue
            only = r.random() < 0.6
            story.append(('link all', [e[:2] for e in ends_], only))
            note('story', story)
            k = link(*[(nodes[e[0]], e[1]) for e in ends_], change_only=only)
            ls = [{'source': x, 'target': y, 'f': ident, 'off': False, 'busy': False, 'change_only': only}
                  for x in ends_ for y in ends_ if x != y]
            sim.links.extend(ls)
            real.append(('all', k, ls))
        elif act < 0.5 and real:
            what, d, ls = r.choice(real)
            off = r.random() < 0.6
            story.append(('unlink' if off else 'relink', [r_[1] for r_ in real].index(d)))
            note('story', story)
            d.unlink() if off else d.relink()
            for l in ls:
                l['off'] = off
        else:
            v = value(a)
            story.append(('set', a[:2], v))
            note('story', story)
            want = None
            try:
                sim.assign(a, v)
            except (Rejected, TypeError) as e:
                want = e
            try:
                setattr(nodes[a[0]], a[1], v)
                check(want is None, 'an error of an update propagates', repr(want))
            except (ValueError, Rejected, TypeError) + ((traitlets.TraitError,) if Trait else ()) as e:
                check(want is not None, 'no error otherwise', repr(e))
        for i, name, t in sim.values:
            check(getattr(nodes[i], name) == sim.values[(i, name, t)], 'the value of every property',
                  (i, name, getattr(nodes[i], name), sim.values[(i, name, t)]))
