"""C07: containers validate every element into a fresh container, and their lengths."""
import collections
import numpy as np
import properties
from properties import undefined
from contracts.stubs import *    # noqa
from contracts import common, c09        # noqa
from pyvc.api import *           # noqa

SEQ = ['properties.base.containers:Tuple.validate', 'properties.base.containers:List.validate']
DICT = ['properties.base.containers:Dictionary.validate']
LEN = ['properties.base.containers:Tuple.assert_valid']
NAMES = ['x', 'y', 'z']


class Odd(Exception):
    """An error that is not a rejection."""


class Elem(properties.Property):
    """validate by contract: any function of the value; it may reject it or raise something else."""

    def validate(self, instance, value):
        log('validate', instance, value)
        if uf_rare('raises', value):
            raise Odd('raised')
        if uf_bool('rejects', value):
            if uf_bool('with its own error', value):
                raise properties.ValidationError('rejected', 'invalid', 'elem', None)
            raise ValueError('rejected')
        return uf_value('element', value)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


def sequence(kind, coerce):
    p = kind('doc', required=False)
    p._prop = abstract(Elem, 'prop', (), lambda: prop_fields('element'))
    p._name = 'x'
    if coerce:
        p.coerce = True
    return p


def a_sequence(form):
    values = mkseq('values', lambda i: uf_value('value', i))
    if form == 'tuple':
        return tuple(values)
    if form == 'list subclass':
        return MyList(values)
    if form == 'tuple subclass':
        return MyTuple(values)
    return values


@contract('C07', SEQ, trials=800, slow=True)
def sequences():
    """Tuple and List: lists and tuples of any length, with and without coerce."""
    kind = choose('kind', [properties.List, properties.Tuple])
    own = list if kind is properties.List else tuple
    coerce = any_bool('coerce')
    p = sequence(kind, coerce)
    inst = choose('instance', [None, Owner()])
    v = a_sequence(choose('value', ['list', 'tuple', 'list subclass', 'tuple subclass']))
    fits = isinstance(v, own)
    calls, want, bad, odd = [], [], False, False
    if fits or coerce:
        for w in v:
            calls.append(('validate', inst, w))
            if uf_rare('raises', w):
                odd = True
                break
            if uf_bool('rejects', w):
                bad = True
                break
            want.append(uf_value('element', w))
    before = snapshot(v)
    clear_trace()
    try:
        got = p.validate(inst, v)
    except BaseException as e:
        if odd:
            check(type(e) is Odd, 'other errors are raised')
        else:
            check(bad or not (fits or coerce), 'only rejected elements and other containers are rejected')
            check(isinstance(e, properties.ValidationError), 'with a ValidationError')
            check(len(e.error_tuples) == 1 and e.error_tuples[0].prop == 'x' and e.error_tuples[0].instance is inst, 'of this property')
    else:
        check(fits or coerce, 'another container is rejected unless coerced')
        check(not bad and not odd, 'no rejected element is accepted')
        check(type(got) is (type(v) if fits else own), 'the class of the result')
        check(got is not v or type(v) is tuple, 'the result is a new container')
        check(same_seq(got, want), 'exactly the validated elements, in order')
    check(same_seq(trace(), calls), 'every element is validated once')
    check(same_seq(v, before), 'the input is not modified')


@contract('C07', SEQ, trials=800)
def single_values():
    """What is not a container: rejected, or with coerce the only element."""
    kind = choose('kind', [properties.List, properties.Tuple, properties.Set])
    coerce = any_bool('coerce')
    p = sequence(kind, coerce)
    v = any_value('value')
    assume(not isinstance(v, (list, tuple, set, np.ndarray)))
    clear_trace()
    try:
        got = p.validate(None, v)
    except BaseException as e:
        if coerce and uf_rare('raises', v):
            check(type(e) is Odd, 'other errors are raised')
        else:
            check(isinstance(e, properties.ValidationError), 'the rejection is a ValidationError')
            check(not coerce or uf_bool('rejects', v) or kind is properties.Set, 'only what must be is rejected')
        return
    check(coerce, 'it is rejected unless coerced')
    check(not uf_rare('raises', v) and not uf_bool('rejects', v), 'a rejected element is not accepted')
    check(type(got) is {properties.List: list, properties.Tuple: tuple, properties.Set: set}[kind], 'the class of the result')
    check(len(got) == 1, 'of length 1')
    if kind is not properties.Set:
        check(same(got[0], uf_value('element', v)), 'the validated value is the element')


class KeyElem(properties.Property):
    """The key is accepted as it is, or rejected."""

    def validate(self, instance, value):
        if uf_bool('key rejects', value):
            raise ValueError('rejected')
        return value


class ValElem(properties.Property):
    def validate(self, instance, value):
        if uf_rare('raises', value):
            raise Odd('raised')
        if uf_bool('rejects', value):
            raise ValueError('rejected')
        return uf_value('element', value)


class MyDict(dict):
    pass


def dictionary_contract(coerce):
    p = properties.Dictionary('doc', required=False)
    keyed, valued = any_bool('has a key prop'), any_bool('has a value prop')
    if keyed:
        p._key_prop = abstract(KeyElem, 'key prop', (), lambda: prop_fields('key'))
    if valued:
        p._value_prop = abstract(ValElem, 'value prop', (), lambda: prop_fields('value'))
    p._name = 'x'
    if coerce:
        p.coerce = True
    v = mkdict('values', lambda k: uf_value('value', k), NAMES)
    sub = any_bool('of a subclass')
    if sub:
        v = MyDict(v)
    bad, odd = False, False
    for k in v:
        if keyed and uf_bool('key rejects', k):
            bad = True
            break
        if valued and uf_rare('raises', v[k]):
            odd = True
            break
        if valued and uf_bool('rejects', v[k]):
            bad = True
            break
    k = any_name('key', NAMES)
    held, old = k in v, v.get(k, None)
    inst = choose('instance', [None, Owner()])
    try:
        got = p.validate(inst, v)
    except BaseException as e:
        if odd:
            check(type(e) is Odd, 'other errors are raised')
        else:
            check(bad, 'only rejected keys and values are rejected')
            check(isinstance(e, properties.ValidationError), 'with a ValidationError')
            check(len(e.error_tuples) == 1 and e.error_tuples[0].prop == 'x' and e.error_tuples[0].instance is inst, 'of this property')
    else:
        check(not bad and not odd, 'no rejected key or value is accepted')
        check(type(got) is (dict if coerce or not sub else MyDict), 'the class of the result')
        check(got is not v, 'the result is a new dictionary')
        check((k in got) == held, 'exactly the keys')
        if held:
            check(same(got[k], uf_value('element', old) if valued else old), 'and the validated values')
    check((k in v) == held and same(v.get(k, None), old), 'the input is not modified')


@contract('C07', DICT, trials=800, slow=True)
def dictionaries():
    """Dictionary: dictionaries of any size."""
    dictionary_contract(False)


@contract('C07', DICT, trials=800, slow=True)
def coerced_dictionaries():
    """With coerce."""
    dictionary_contract(True)


@contract('C07', DICT, trials=400)
def not_dictionaries():
    """Anything else is rejected without coerce."""
    p = properties.Dictionary('doc', required=False)
    v = any_value('value')
    assume(not isinstance(v, dict))
    try:
        p.validate(None, v)
    except properties.ValidationError:
        return
    fail('rejected')


# ---------------------------------------------------------------- bounded
REJECT = ('reject',)
Pair = collections.namedtuple('Pair', 'a b')


class MySet(set):
    pass


def elements(r):
    """(element property or None, model of its validate)."""
    def num(v):
        if isinstance(v, np.ndarray) and v.shape == ():
            v = v.item()
        return int(v) if isinstance(v, (int, float, np.integer)) and v == v and abs(v) < 100 and int(v) == v and 0 <= int(v) else REJECT

    def up(v):
        return v.upper() if isinstance(v, str) else REJECT

    def color(v):
        if isinstance(v, str):
            return {'red': (255, 0, 0)}.get(v, REJECT)
        if isinstance(v, (list, tuple)) and len(v) == 3 and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= 255 for x in v):
            return tuple(v)
        return REJECT
    return r.choice([(None, lambda v: v), (properties.Integer('i', min=0, max=99), num),
                     (properties.String('s', change_case='upper'), up), (properties.Color('c'), color)])


SAMPLES = [0, 1, 2, 50, -1, 100, 2.0, 2.5, 'a', 'q', 'A', 'red', '', (1, 2, 3), (1, 2), (9, 9, 9)]


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def form(r, items):
    """A container of these items."""
    makers = [list, tuple, MyList, MyTuple, np_array]
    if all(hashable(x) for x in items):
        makers += [set, MySet, frozenset]
    if len(items) == 2:
        makers.append(lambda xs: Pair(*xs))
    return r.choice(makers)(items)


def np_array(items):
    if all(isinstance(x, int) for x in items):
        return np.array(items)
    a = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    return a


@bounded('C07', SEQ + LEN, trials=9000)
def real_containers():
    """Random containers of every form for Tuple, List and Set, with a model of the element properties."""
    r = rng()
    kind = r.choice([properties.List, properties.Tuple, properties.Set])
    own = {properties.List: list, properties.Tuple: tuple, properties.Set: set}[kind]
    prop, model = elements(r)
    kw = {'coerce': True} if r.random() < 0.6 else {}
    if r.random() < 0.4:
        kw['min_length'] = r.randint(0, 3)
    if r.random() < 0.4:
        kw['max_length'] = kw.get('min_length', 0) + r.randint(0, 3)
    if kind is not properties.Tuple and r.random() < 0.3:
        kw['observe_mutations'] = True
    p = kind('c', prop, required=False, **kw) if prop is not None else kind('c', required=False, **kw)
    coerce = kw.get('coerce', False)
    good = [x for x in SAMPLES if model(x) is not REJECT]
    if r.random() < 0.12:
        v = r.choice([5, 'a', 'red', None, {}, {'a': 1}, frozenset(['a', 'b']), np.array(5), 2.5, range(2), iter([1]), object()])
    else:
        items = [r.choice(good) for _ in range(r.randint(0, 4))]
        if r.random() < 0.25:
            items.insert(r.randint(0, len(items)), r.choice(SAMPLES))
        if r.random() < 0.06 and kind is properties.Set and prop is None:
            items.append([1])
        v = form(r, items)
    contained = isinstance(v, (list, tuple, set)) or isinstance(v, np.ndarray) and v.shape != ()
    inside = list(v) if contained else [v]
    note('input', (kind.__name__, type(prop).__name__, kw, type(v).__name__, repr(v)))
    wants = [model(x) for x in inside]
    fits = isinstance(v, own)
    bad = not fits and not coerce or any(w is REJECT for w in wants) or kind is properties.Set and not all(hashable(w) for w in wants)
    cls = type(str('Zoo07'), (properties.HasProperties,), {'_REGISTRY': dict(), 'c': p})
    x = cls()
    before = repr(v)
    how = r.choice(['validate', 'assign'])
    try:
        if how == 'validate':
            got = p.validate(None, v)
        else:
            if v is None:
                return
            x.c = v
            got = x.c
    except properties.ValidationError as e:
        check(bad, 'only what must be is rejected', repr(e))
        check(isinstance(e, properties.ValidationError) and e.error_tuples[0].prop == 'c', 'with a ValidationError of this property')
        check('c' not in x._backend, 'nothing is stored')
        check(repr(v) == before, 'the input is not modified')
        return
    check(not bad, 'what must be is rejected')
    check(got is not v or type(v) is tuple, 'the result is a new container')
    observed = kw.get('observe_mutations', False)
    target = type(v) if fits else own
    check(isinstance(got, target) if observed else type(got) is target, 'the class of the result', (type(got), type(v)))
    if observed:
        check(type(got).__name__ == 'Observable' + target.__name__, 'an observable one')
    if kind is properties.Set:
        check(set(got) == set(wants), 'exactly the validated elements')
        check(sorted(repr((type(a), a)) for a in got) == sorted(set(repr((type(a), a)) for a in wants)) or
              len(set(repr(a) for a in wants)) != len(set(wants)), 'of the validated types')
    else:
        check(len(got) == len(wants), 'exactly as many elements')
        for a, b in zip(got, wants):
            check(type(a) is type(b) and a == b or a is b, 'exactly the validated elements, in order', (got, wants))
    check(repr(v) == before, 'the input is not modified')
    again = p.validate(None, got)
    check((again is not got or type(got) is tuple) and again == got, 'validating the result again changes nothing')
    x.c = got
    n = len(got)
    ok = kw.get('min_length', 0) <= n <= kw.get('max_length', 10 ** 6)
    try:
        x.validate()
        check(ok, 'the length is in bounds')
    except properties.ValidationError as e:
        check(not ok, 'a length in bounds (inclusive) is valid', repr(e))


@bounded('C07', DICT, trials=5000)
def real_dictionaries():
    """Random dictionaries and what can be made into one."""
    r = rng()
    kprop, kmodel = elements(r)
    vprop, vmodel = elements(r)
    kw = {}
    if kprop is not None:
        kw['key_prop'] = kprop
    if vprop is not None:
        kw['value_prop'] = vprop
    coerce = r.random() < 0.5
    if coerce:
        kw['coerce'] = True
    observed = r.random() < 0.3
    if observed:
        kw['observe_mutations'] = True
    p = properties.Dictionary('c', required=False, **kw)
    ks = [k for k in SAMPLES if kmodel(k) is not REJECT]
    vs = [x for x in SAMPLES if vmodel(x) is not REJECT]
    pairs = [(r.choice(ks), r.choice(vs)) for _ in range(r.randint(0, 4))]
    if r.random() < 0.2:
        pairs.append((r.choice(SAMPLES), r.choice(SAMPLES)))
    base = collections.OrderedDict(pairs)
    v = r.choice([dict, dict, MyDict, collections.OrderedDict, lambda d: list(d.items()), lambda d: tuple(d.items()),
                  (lambda d: collections.defaultdict(list, d)) if not observed else dict, lambda d: 5, lambda d: [1], lambda d: 'word', lambda d: None])(base)
    fits = isinstance(v, dict)
    note('input', (type(kprop).__name__, type(vprop).__name__, coerce, repr(v)))
    want, bad = {}, False
    if not fits and not coerce:
        bad = True
    else:
        try:
            source = dict(v)
        except (TypeError, ValueError):
            source, bad = {}, True
        for k, w in source.items():
            a, b = kmodel(k), vmodel(w)
            if a is REJECT or b is REJECT:
                bad = True
                break
            want[a] = b
    before = repr(v)
    cls = type(str('Zoo07'), (properties.HasProperties,), {'_REGISTRY': dict(), 'c': p})
    x = cls()
    try:
        got = p.validate(None, v)
    except properties.ValidationError as e:
        check(bad, 'only what must be is rejected', repr(e))
        check(isinstance(e, properties.ValidationError) and e.error_tuples[0].prop == 'c', 'with a ValidationError of this property')
        check(repr(v) == before, 'the input is not modified')
        return
    check(not bad, 'what must be is rejected')
    check(got is not v and got == want, 'exactly the validated keys and values', (got, want))
    check(sorted(repr((type(k), k, type(w), w)) for k, w in got.items()) ==
          sorted(repr((type(k), k, type(w), w)) for k, w in want.items()) or len(want) < len(v), 'of the validated types')
    target = dict if coerce or not fits else type(v)
    check(isinstance(got, target) if observed else type(got) is target, 'the class of the result')
    check(repr(v) == before, 'the input is not modified')
    x.c = got
    check(x.c == want and x.c is not got, 'assigning stores another copy')
    check(x.validate() is True, 'and it is valid')


class Part(properties.HasProperties):
    _REGISTRY = dict()
    n = properties.Integer('n', min=0)


class Whole(properties.HasProperties):
    _REGISTRY = dict()
    parts = properties.List('parts', Part, required=False, min_length=1, max_length=3)
    pair = properties.Tuple('pair', Part, required=False)
    bag = properties.Set('bag', Part, required=False)
    table = properties.Dictionary('table', key_prop=properties.String('k'), value_prop=Part, required=False)
    deep = properties.List('deep', properties.List('l', properties.Integer('i', max=9), max_length=2), required=False)


@bounded('C07', SEQ + DICT + LEN, trials=2500)
def every_element_is_asserted():
    """An element that became invalid, or a container that became too long, makes its owner invalid."""
    r = rng()
    x = Whole()
    which = r.choice(['parts', 'pair', 'bag', 'table', 'deep'])
    n = r.randint(0, 4)
    if which == 'deep':
        rows = [[r.randint(0, 9) for _ in range(r.randint(0, 3))] for _ in range(n)]
        x.deep = rows
        good = all(len(row) <= 2 for row in rows)
        for row, mine in zip(rows, x.deep):
            check(mine is not row and mine == row, 'nested containers are copied')
        if n and r.random() < 0.3:
            i = r.randrange(n)
            x.deep[i].append(10)
            good = False
            check(rows[i][-1:] != [10] or rows[i] is not x.deep[i], 'the input is independent')
    else:
        parts = [Part(n=r.randint(0, 3)) for _ in range(n)]
        value = {'parts': list, 'pair': tuple, 'bag': set, 'table': lambda ps: {str(i): q for i, q in enumerate(ps)}}[which](parts)
        setattr(x, which, value)
        good = which != 'parts' or 1 <= n <= 3
        stored = getattr(x, which)
        check(stored is not value or type(value) is tuple, 'a new container')
        check(len(stored) == n and all(any(q is s for s in (stored.values() if which == 'table' else stored)) for q in parts),
              'of the same instances')
        if n and r.random() < 0.5:
            q = r.choice(parts)
            if r.random() < 0.5:
                q._backend['n'] = -1
            else:
                del q.n
            good = False
        if which == 'parts' and r.random() < 0.3:
            stored.append(Part(n=1))
            good = 1 <= n + 1 <= 3 and all(q._backend.get('n', -1) >= 0 for q in parts)
    note('case', (which, n, good))
    try:
        x.validate()
        check(good, 'every element and the length are checked')
    except properties.ValidationError as e:
        check(not good, 'a valid container is valid', repr(e))
