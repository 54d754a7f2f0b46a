"""C05: String, StringChoice and URL."""
import re
from urllib.parse import urlparse, urlunparse
import properties
import properties.extras
from properties.extras import URL
from contracts.common import *          # noqa
from contracts.stubs import StubRegex
from pyvc.api import (contract, bounded, check, assume, cover, any_value, any_int, any_bool, any_str, choose,
                      fail, same, uf_bool, rng, note)


@contract('C05', ['properties.basic:String.validate'], trials=600)
def string_validate():
    """String.validate: exactly the matching strings, stripped and then case-changed."""
    p = properties.String('doc')
    with_regex = choose('with regex', [False, True])
    if with_regex:
        p.regex = StubRegex()
    strip = ''
    if choose('with strip', [False, True]):
        strip = any_str('strip')
        p.strip = strip
    case = choose('case', [None, 'upper', 'lower'])
    p.change_case = case
    p.unicode = choose('unicode', [True, False])
    value = any_value('value')
    ok = isinstance(value, str) and (not with_regex or uf_bool('regex', value))
    try:
        r = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        check(not ok, 'every matching string is accepted')
        return
    cover('accepted')
    check(ok, 'only matching strings are accepted')
    e = value.strip(strip)
    if case == 'upper':
        e = e.upper()
    elif case == 'lower':
        e = e.lower()
    check(isinstance(r, str), 'the result is a string')
    check(r == e, 'stripped, then changed to the requested case')


@contract('C05', ['properties.basic:String.strip', 'properties.basic:String.change_case',
                  'properties.basic:String.unicode', 'properties.basic:String.regex'], trials=200)
def string_settings():
    """Settings of a String are checked."""
    p = properties.String('doc')
    v = any_value('setting')
    try:
        p.strip = v
    except TypeError:
        check(not isinstance(v, str), 'any string may be stripped')
        check(p.strip == '', 'a refused setting changes nothing')
    else:
        check(isinstance(v, str), 'only strings may be stripped')
        check(p.strip == v, 'strip is stored')
    b = any_value('unicode')
    try:
        p.unicode = b
    except TypeError:
        check(not isinstance(b, bool), 'unicode may be any boolean')
        check(p.unicode is True, 'a refused setting changes nothing')
    else:
        check(p.unicode is b and isinstance(b, bool), 'unicode is a boolean')


@contract('C05', ['properties.basic:String.change_case'], trials=100)
def string_case_setting():
    p = properties.String('doc')
    v = choose('case', [None, 'upper', 'lower', any_str('case'), any_int('n')])
    ok = v is None or v == 'upper' or v == 'lower'
    try:
        p.change_case = v
    except TypeError:
        check(not ok, 'None, upper and lower are accepted')
        check(p.change_case is None, 'a refused setting changes nothing')
    else:
        check(ok, 'only None, upper and lower are accepted')
        check(same(p.change_case, v), 'and stored')


def fold(s, cs):
    return s if cs else s.upper()


@contract('C05', ['properties.basic:StringChoice.validate'], trials=300,
          bound='three choices with at most two aliases each (strings unbounded)')
def choice_validate():
    """StringChoice.validate returns the key its input or alias matches, else ValueError."""
    k1, k2, k3 = any_str('k1'), any_str('k2'), any_str('k3')
    a1, a2, a3 = any_str('a1'), any_str('a2'), any_str('a3')
    cs = any_bool('case_sensitive')
    allv = [fold(k1, cs), fold(k2, cs), fold(k3, cs), fold(a1, cs), fold(a2, cs), fold(a3, cs)]
    assume(allv[0] != allv[1])
    assume(allv[0] != allv[2])
    assume(allv[1] != allv[2])
    p = properties.StringChoice('doc', ['x', 'y', 'z'], case_sensitive=cs)
    p._choices = {k1: [a1, a2], k2: [], k3: [a3]}
    value = any_value('value')
    try:
        r = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        if isinstance(value, str):
            v = fold(value, cs)
            check(v != allv[0] and v != allv[1] and v != allv[2], 'a choice is accepted')
            check(v != allv[3] and v != allv[4] and v != allv[5], 'an alias is accepted')
        return
    cover('accepted')
    check(isinstance(value, str), 'only strings are accepted')
    v = fold(value, cs)
    if r == k1:
        check(v == allv[0] or v == allv[3] or v == allv[4], 'the first choice matches')
    elif r == k2:
        check(v == allv[1], 'the second choice matches')
    else:
        check(r == k3, 'the result is a choice')
        check(v == allv[2] or v == allv[5], 'the third choice matches')


@contract('C05', ['properties.basic:StringChoice.choices'], trials=1500, bound='at most three choices and aliases (strings unbounded)')
def choices_given():
    """choices as list, tuple, set or dictionary with aliases: exactly those without duplicates are accepted, and kept with their aliases."""
    cs = any_bool('case_sensitive')
    form = choose('form', ['list', 'tuple', 'set', 'single alias', 'aliases', 'alias tuple', 'alias set', 'two keys', 'no text', 'other'])
    a, b, c = any_str('a'), any_str('b'), any_str('c')
    words = [a, b, c]
    if form == 'list':
        arg = [a, b, c]
    elif form == 'tuple':
        arg = (a, b)
        words = [a, b]
    elif form == 'set':
        assume(a != b)
        arg = {a, b}
        words = [a, b]
    elif form == 'single alias':
        arg = {a: b}
        words = [a, b]
    elif form == 'aliases':
        arg = {a: [b, c]}
    elif form == 'alias tuple':
        arg = {a: (b, c)}
    elif form == 'alias set':
        arg = {a: {b}}
        words = [a, b]
    elif form == 'two keys':
        assume(a != b)
        arg = {a: [c], b: []}
    elif form == 'no text':
        v = choose('wrong', [None, 5, b'x', 1.5])
        arg = choose('where', [[a, v], (v, a), {v: [a]}, {a: v}, {a: [b, v]}])
        words = None
    else:
        arg = choose('other', [None, 5, 'text', 1.5, object()])
        words = None
    p = properties.StringChoice('doc', ['x'], case_sensitive=cs)
    old = p.choices
    ok = words is not None
    if ok:
        for i in range(len(words)):
            for j in range(i):
                if fold(words[i], cs) == fold(words[j], cs):
                    ok = False
    try:
        p.choices = arg
    except TypeError:
        check(not ok, 'different texts are accepted')
        check(p.choices is old, 'a refused setting changes nothing')
        cover('refused')
        return
    check(ok, 'duplicates and what is no text are rejected')
    got = p.choices
    if form in ('list', 'tuple', 'set'):
        check(len(got) == len(words) and all(w in got and list(got[w]) == [] for w in words), 'each without aliases')
    elif form == 'two keys':
        check(len(got) == 2 and list(got[a]) == [c] and list(got[b]) == [], 'the choices with their aliases')
    else:
        check(len(got) == 1 and list(got[a]) == words[1:], 'the choice with its aliases')
    if form == 'list':
        check(list(got) == words, 'in order')
    cover('accepted')


WORDS = ['a', 'A', 'b', 'B', 'ab', 'AB', 'Ab', 'c', 'C', 'red', 'RED', 'Red', 'ß', 'SS', 'x y', ' a', '']


@bounded('C05', ['properties.basic:StringChoice.choices', 'properties.basic:StringChoice.validate'], trials=1500)
def choices_concrete():
    """choices given as list, tuple, set or dict: duplicates and non-strings rejected, lookup exact."""
    r = rng()
    cs = r.random() < 0.5
    kind = r.choice(['list', 'tuple', 'set', 'dict'])
    n = r.randint(0, 4)
    pool = WORDS + ([1, None, ('a',)] if r.random() < 0.2 else [])
    keys = [r.choice(pool) for _ in range(n)]
    if kind == 'dict':
        arg = {}
        for k in keys:
            al = [r.choice(pool) for _ in range(r.randint(0, 2))]
            arg[k] = r.choice([al, tuple(al), set(al)]) if len(al) != 1 or r.random() < 0.5 else al[0]
    else:
        arg = {'list': list, 'tuple': tuple, 'set': set}[kind](keys)
    note('choices', arg)
    note('case_sensitive', cs)
    # the specification: keys and aliases
    spec, bad = {}, False
    if kind == 'dict':
        for k, v in arg.items():
            spec[k] = list(v) if isinstance(v, (set, list, tuple)) else [v]
    else:
        if len(arg) != len(set(arg)):
            bad = True
        for k in arg:
            spec[k] = []
    items = []
    for k, v in spec.items():
        items += [k] + list(v)
    if not all(isinstance(i, str) for i in items):
        bad = True
    else:
        if len(set(fold(i, cs) for i in items)) != len(items):
            bad = True
    try:
        p = properties.StringChoice('doc', arg, case_sensitive=cs)
    except TypeError:
        check(bad, 'good choices are accepted')
        return
    check(not bad, 'duplicates and non-strings are rejected')
    check(dict(p.choices) == spec, 'the choices are stored with their aliases')
    for value in WORDS + ['nope', 1, None, b'a', 'SS', ['a']]:
        e = None
        if isinstance(value, str):
            for k, v in spec.items():
                if fold(value, cs) in [fold(x, cs) for x in [k] + v]:
                    e = k
        try:
            got = p.validate(None, value)
        except properties.ValidationError:
            check(e is None, 'a matching value is accepted', (value, spec))
            continue
        check(e is not None, 'other values are rejected', (value, got))
        check(got == e and type(got) is str, 'the key is returned', (value, got, e))
        check(p.validate(None, got) == got, 'a result validates to itself')
    p2 = properties.StringChoice('doc', ['one'])
    old = p2.choices
    try:
        p2.choices = r.choice(['one', 5, None, ['x', 'x'], ['x', 'X'], [1], {'a': ['b', 1]}, {'a': 'A'}])
        fail('invalid choices are rejected')
    except TypeError:
        check(p2.choices is old, 'a refused setting changes nothing')


@contract('C05', ['properties.extras.web:URL.remove_parameters', 'properties.extras.web:URL.remove_fragment'], trials=50)
def url_settings():
    p = URL('doc')
    check(p.remove_parameters is False and p.remove_fragment is False, 'nothing is removed by default')
    a, b = any_bool('a'), any_bool('b')
    p.remove_parameters = a
    p.remove_fragment = b
    check(p.remove_parameters == a, 'remove_parameters is stored')
    check(p.remove_fragment == b, 'remove_fragment is stored')


@contract('C05', ['properties.extras.web:URL.validate', 'properties.extras.web:URL.remove_parameters',
                  'properties.extras.web:URL.remove_fragment', 'properties.basic:String.validate'], trials=800)
def url_parts():
    """Whatever urlparse makes of a text (stripped and changed by the String settings): URL accepts it iff it has a scheme and a
    network location, and returns the unparsed parts but those configured away; other values are rejected."""
    rp, rf = any_bool('remove_parameters'), any_bool('remove_fragment')
    p = URL('doc', remove_parameters=rp, remove_fragment=rf)
    if choose('with strip', [False, True]):
        p.strip = '/'
    p.change_case = choose('case', [None, 'lower'])
    kind = choose('kind', ['url', 'text', 'any'])
    if kind == 'url':
        v = choose('scheme', ['http:', 'a+b:']) + '//a.b' + any_str('path') + choose('tail', [';p?q#f', '#f', any_str('tail')])
    elif kind == 'text':
        v = any_str('text')
    else:
        v = any_value('value')
    if not isinstance(v, str):
        try:
            p.validate(None, v)
            fail('only strings are accepted')
        except properties.ValidationError:
            pass
        return
    t = v.strip(p.strip)
    if p.change_case == 'lower':
        t = t.lower()
    try:
        q = urlparse(t)
    except ValueError:
        try:
            p.validate(None, v)
            fail('an unparsable text is rejected')
        except ValueError:
            pass
        return
    try:
        got = p.validate(None, v)
    except properties.ValidationError:
        check(q.scheme == '' or q.netloc == '', 'a string with scheme and netloc is accepted')
        cover('rejected')
        return
    check(q.scheme != '' and q.netloc != '', 'other strings are rejected')
    e = urlunparse((q.scheme, q.netloc, q.path, '' if rp else q.params, '' if rp else q.query, '' if rf else q.fragment))
    check(got == e, 'exactly the configured parts are dropped')


@bounded('C05', ['properties.extras.web:URL.validate'], trials=1500)
def url_validate():
    """URL: exactly strings with scheme and netloc; parts dropped exactly as configured."""
    r = rng()
    parts = (r.choice(['http', 'https', 'ftp', 'file', '', 'HTTP', 'mailto', 'a+b']),
             r.choice(['a.b', 'example.com:80', '', 'user:pw@h', '[::1]', 'ÄB.de']),
             r.choice(['', '/', '/p/q', '/p;x', 'rel', '/a b']),
             r.choice(['', 'par=1', 'v']), r.choice(['', 'q=1&r=2', 'q']), r.choice(['', 'frag', 'x/y']))
    try:
        u = urlunparse(parts)
    except ValueError:
        u = 'http://x'
    if r.random() < 0.15:
        u = r.choice(['', 'abc', 'http:', '//a.b', 'http://', 'a.b/c', 'http:/x', 'x://y', 'http://a#b?c', 5, None,
                      ['http://a.b'], b'http://a.b', 'http://[bad'])
    rp, rf = r.random() < 0.5, r.random() < 0.5
    note('url', u)
    note('remove', (rp, rf))
    p = URL('doc', remove_parameters=rp, remove_fragment=rf)
    ok = isinstance(u, str)
    if ok:
        try:
            q = urlparse(u)
            ok = bool(q.scheme) and bool(q.netloc)
        except ValueError:
            ok = False
    try:
        got = p.validate(None, u)
    except ValueError:
        check(not ok, 'a string with scheme and netloc is accepted')
        return
    check(ok, 'other values are rejected')
    e = q._replace(params='' if rp else q.params, query='' if rp else q.query,
                   fragment='' if rf else q.fragment)
    check(got == urlunparse(e), 'exactly the configured parts are dropped', (u, got))
    g = urlparse(got)
    check((g.scheme, g.netloc, g.path) == (q.scheme, q.netloc, q.path), 'scheme, netloc and path stay')
    check(p.validate(None, got) == got, 'a result validates to itself')


@bounded('C05', ['properties.basic:String.validate', 'properties.basic:String.regex'], trials=800)
def string_regex_concrete():
    """Real regular expressions, pattern or compiled; search semantics, on the unstripped input."""
    r = rng()
    pat = r.choice(['a', '^a', 'a$', '^[a-z]+$', r'\d', '', 'b|c', '^ '])
    rx = re.compile(pat) if r.random() < 0.5 else pat
    strip = r.choice(['', ' ', 'a', 'ab', ' x'])
    case = r.choice([None, 'upper', 'lower'])
    p = properties.String('doc', regex=rx, strip=strip, change_case=case)
    v = ''.join(r.choice('aAbBc 1xé') for _ in range(r.randint(0, 6)))
    note('setup', (pat, strip, case, v))
    ok = re.search(pat, v) is not None
    try:
        got = p.validate(None, v)
    except properties.ValidationError:
        check(not ok, 'every matching string is accepted')
        return
    check(ok, 'only matching strings are accepted')
    e = v.strip(strip)
    e = e.upper() if case == 'upper' else e.lower() if case == 'lower' else e
    check(got == e and type(got) is str, 'stripped then case changed', (v, got, e))

    class MyStr(str):
        pass
    u = properties.String('doc', unicode=False)
    check(u.validate(None, MyStr('x')) == 'x', 'string subclasses are strings')
    for bad in ('[', '(', 5, None, ['a'], object()):
        try:
            properties.String('doc', regex=bad)
        except TypeError:
            continue
        fail('an invalid regex is rejected', bad)
