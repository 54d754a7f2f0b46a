"""C06: Color, DateTime, Uuid."""
import datetime
import json
import os
import uuid
import properties
from contracts.common import *          # noqa
from pyvc.api import (contract, bounded, check, assume, cover, any_value, any_int, any_bool, any_str, choose,
                      fail, same, rng, note)

CSS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'css_colours.json')))
HEX = '0123456789abcdefABCDEF'


@contract('C06', ['properties.basic:Color.validate'], trials=400)
def color_sequence():
    """A list or tuple is a colour iff it has three ints in 0..255; the result is that tuple."""
    a, b, c = any_value('r'), any_value('g'), any_value('b')
    v = choose('container', [[a, b, c], (a, b, c), [a, b], (a,), [], [a, b, c, a]])
    ok = len(v) == 3 and all([isinstance(x, int) and 0 <= x <= 255 for x in v])
    p = properties.Color('doc')
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        cover('rejected')
        check(not ok, 'three ints in 0..255 are a colour')
        return
    cover('accepted')
    check(ok, 'nothing else is')
    check(isinstance(r, tuple) and len(r) == 3, 'a tuple of three')
    check(same(r[0], a) and same(r[1], b) and same(r[2], c), 'with the values given')
    r2 = p.validate(None, r)
    check(r2 == r, 'validating the result again returns it')
    j = p.to_json(r)
    check(p.from_json(j) == r, 'JSON gives it back')


@contract('C06', ['properties.basic:Color.validate'], trials=200)
def color_other_types():
    """Values that are neither strings nor lists nor tuples are rejected with ValueError."""
    v = any_value('value')
    assume(not isinstance(v, (str, list, tuple)))
    try:
        properties.Color('doc').validate(None, v)
    except properties.ValidationError:
        cover('rejected')
        return
    fail('other values are rejected')


@bounded('C06', ['properties.basic:Color.validate'], trials=1)
def color_names():
    """Every web colour name denotes its documented RGB value (exhaustive over the names)."""
    p = properties.Color('doc')
    for name, hx in CSS.items():
        e = tuple(int(hx[i:i + 2], 16) for i in (0, 2, 4))
        check(p.validate(None, name) == e, 'a colour name denotes its RGB value', name)
    for i in range(4096):
        h = '%03x' % i
        e = tuple(int(c * 2, 16) for c in h)
        for s in (h, '#' + h, h.upper()):
            check(p.validate(None, s) == e, 'a 3-digit hex colour doubles each digit', s)


@bounded('C06', ['properties.basic:Color.validate'], trials=1)
def color_digits():
    """No character but a hex digit is accepted at any position of a hex colour (all characters up to U+024F, the other
    digits and spaces of Unicode, and whatever upper() turns into hex digits)."""
    p = properties.Color('doc')
    import unicodedata
    chars = [chr(i) for i in range(0x250)] +         [chr(i) for i in range(0x250, 0x20000) if unicodedata.category(chr(i)) in ('Nd', 'Zs', 'No', 'Pc', 'Pd')]
    for ch in chars:
        for s in ('a' + ch + 'bbcc', 'aabb' + ch + 'c', ch + 'ab', 'ab' + ch, '#a' + ch + 'b'):
            if ch in HEX or (ch == '#' and s.startswith(ch)):
                continue
            try:
                got = p.validate(None, s)
            except properties.ValidationError:
                continue
            fail('other strings are rejected', (s, got))


@bounded('C06', ['properties.basic:Color.validate'], trials=2500)
def color_strings():
    r = rng()
    p = properties.Color('doc')
    m = r.random()
    if m < 0.4:
        s = ''.join(r.choice(HEX) for _ in range(6))
        e = tuple(int(s[i:i + 2], 16) for i in (0, 2, 4))
        s = r.choice(['', '#']) + s
    elif m < 0.7:
        n = r.choice([0, 1, 2, 4, 5, 7, 8])
        s, e = r.choice(['', '#']) + ''.join(r.choice(HEX) for _ in range(n)), None
        if s in CSS:
            return
    elif m < 0.8:
        s = r.choice(['random', 'RANDOM', 'Random'])
        e = 'random'
    elif m < 0.9:
        n = r.choice([3, 6])
        s = ''.join(r.choice(HEX) for _ in range(n))
        s, e = r.choice(['', '#']) + r.choice([s + '#', s[:2] + '#' + s[2:], s + ' ', ' ' + s, s + 'X', '0X' + s, s + '\n']), None
    else:
        s = ''.join(r.choice(HEX) for _ in range(6))
        i = r.randrange(6)
        s = s[:i] + r.choice('ghxyzGé?/[]{} _+-#') + s[i + 1:]
        e = None
    note('colour', s)
    try:
        got = p.validate(None, s)
    except properties.ValidationError:
        check(e is None, 'a colour string is accepted', s)
        return
    if e == 'random':
        check(isinstance(got, tuple) and len(got) == 3 and all(type(x) is int and 0 <= x <= 255 for x in got),
              'random gives a colour')
        return
    check(e is not None, 'other strings are rejected', (s, got))
    check(got == e and type(got) is tuple and all(type(x) is int for x in got),
          'a hex string denotes its RGB value', (s, got))
    check(p.validate(None, got) == got, 'validating the result again returns it')
    check(p.validate(None, p.from_json(json.loads(json.dumps(p.to_json(got))))) == got, 'JSON gives it back')


@bounded('C06', ['properties.basic:DateTime.validate', 'properties.basic:DateTime.from_json',
                 'properties.basic:DateTime.to_json'], trials=2500)
def datetime_validate():
    r = rng()
    p = properties.DateTime('doc')
    y = r.choice([1, 9, 99, 987, 1000, 1582, 1899, 1970, 2000, 2016, 2024, 9999, r.randint(1, 9999)])
    mo, d = r.randint(1, 12), r.randint(1, 28)
    h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
    dt = datetime.datetime(y, mo, d, h, mi, s, r.choice([0, 0, 1, 999999]))
    note('dt', dt)
    check(p.validate(None, dt) is dt, 'a datetime is returned unchanged')
    sec = dt.replace(microsecond=0)
    j = p.to_json(dt)
    check(isinstance(j, str), 'the JSON form is a string')
    check(p.from_json(j) == sec, 'JSON gives the datetime back to the second', (j, dt))
    check(p.validate(None, j) == sec, 'the JSON form is accepted', j)
    long = '%04d-%02d-%02dT%02d:%02d:%02dZ' % (y, mo, d, h, mi, s)
    check(j == long, 'the JSON form is the documented format', j)
    check(p.validate(None, long) == sec, 'the long format is parsed', long)
    for sep in '/-':
        short = sep.join(['%04d' % y, '%02d' % mo, '%02d' % d])
        got = p.validate(None, short)
        check(got == datetime.datetime(y, mo, d), 'the date format is parsed', short)
        check(p.validate(None, got) is got, 'validating the result again returns it')
    bad = r.choice(['', 'x', '%04d/13/01' % y, '%04d-01-32' % y, long[:-1], long + 'Z', long.replace('T', ' '),
                    '01/02/%04d' % y, '%04d/%02d' % (y, mo), 5, 1.5, None, [2000, 1, 1], b'2000/01/01',
                    datetime.date(y, mo, d), datetime.time(1), (1, 2), '2015-02-29', '2000-01-01T24:00:00Z'])
    note('bad', bad)
    try:
        got = p.validate(None, bad)
    except properties.ValidationError:
        return
    fail('anything else is rejected with ValueError', (bad, got))


@contract('C06', ['properties.basic:DateTime.validate'], trials=200)
def datetime_types():
    """DateTime rejects every value that is neither a datetime nor a string."""
    v = any_value('value')
    p = properties.DateTime('doc')
    if isinstance(v, datetime.datetime):
        check(p.validate(None, v) is v, 'a datetime is returned unchanged')
        return
    assume(not isinstance(v, str))
    try:
        p.validate(None, v)
    except properties.ValidationError:
        cover('rejected')
        return
    fail('other values are rejected')


@contract('C06', ['properties.basic:DateTime.validate', 'properties.basic:DateTime.from_json'], trials=400)
def datetime_texts():
    """Whatever strptime makes of a text: validate and from_json give the datetime it reads, in the date format for texts of
    length 10 with either separator and in the long format otherwise; validate rejects exactly what it cannot read."""
    v = choose('text', ['2000/01/02', '1999-12-31', '2001-02-03T04:05:06Z', '2015-02-29', any_str('any text')])
    p = properties.DateTime('doc')
    try:
        if len(v) == 10:
            e = datetime.datetime.strptime(v.replace('-', '/'), '%Y/%m/%d')
        else:
            e = datetime.datetime.strptime(v, '%Y-%m-%dT%H:%M:%SZ')
    except ValueError:
        try:
            p.validate(None, v)
        except properties.ValidationError:
            cover('rejected')
            return
        fail('other texts are rejected')
    try:
        got = p.validate(None, v)
        direct = p.from_json(v)
    except ValueError:
        fail('a readable text is accepted')
    check(got == e and isinstance(got, datetime.datetime), 'validate gives the datetime read')
    check(direct == e, 'from_json gives the datetime read')
    cover('accepted')


@contract('C06', ['properties.basic:Uuid.validate'], trials=200)
def uuid_validate():
    """Uuid accepts exactly UUID instances, unchanged."""
    v = any_value('value')
    p = properties.Uuid('doc')
    try:
        r = p.validate(None, v)
    except properties.ValidationError:
        check(not isinstance(v, uuid.UUID), 'a UUID is accepted')
        return
    check(isinstance(v, uuid.UUID), 'only UUIDs are accepted')
    check(r is v, 'and returned unchanged')


@contract('C06', ['properties.basic:Uuid.to_json', 'properties.basic:Uuid.from_json', 'properties.basic:Uuid.default'], trials=100)
def uuid_json():
    """Any UUID: its JSON form is a text, and from_json gives it back; texts that are no UUID are a ValueError."""
    p = properties.Uuid('doc')
    check(p.default is uuid.uuid4, 'the default is a new random UUID')
    u = uuid.uuid4()
    j = p.to_json(u)
    check(isinstance(j, str) and j == str(u), 'the text of the UUID')
    check(p.serialize(u) == j, 'also by serialize')
    back = p.from_json(j)
    check(isinstance(back, uuid.UUID) and back == u, 'JSON gives it back')
    check(p.deserialize(j) == u, 'also by deserialize')
    text = any_str('text')
    bad = None
    try:
        want = uuid.UUID(text)
    except ValueError:
        bad = True
    try:
        got = p.from_json(text)
        check(not bad and got == want, 'the UUID of the text')
    except ValueError:
        check(bad, 'the text of a UUID is accepted')


class HasUuid(properties.HasProperties):
    u = properties.Uuid('a uuid')
    w = properties.Uuid('another')


@bounded('C06', ['properties.basic:Uuid.default', 'properties.basic:Uuid.to_json', 'properties.basic:Uuid.from_json'],
         trials=150)
def uuid_fresh():
    """Every instance has its own fresh UUIDs; JSON gives them back; they cannot be assigned."""
    insts = [HasUuid() for _ in range(5)]
    us = [x for i in insts for x in (i.u, i.w)]
    check(len(set(us)) == 10, 'UUIDs are fresh per property and instance')
    p = properties.Uuid('doc')
    for u in us:
        check(isinstance(u, uuid.UUID), 'the value is a UUID')
        check(p.validate(None, u) is u, 'a UUID is returned unchanged')
        check(p.from_json(json.loads(json.dumps(p.to_json(u)))) == u, 'JSON gives it back')
    for bad in (str(us[0]), us[0].hex, None, 5, us[0].bytes, us[0].int):
        try:
            p.validate(None, bad)
        except properties.ValidationError:
            continue
        fail('anything but a UUID is rejected', bad)
    i = insts[0]
    try:
        i.u = uuid.uuid4()
        fail('a Uuid cannot be assigned')
    except AttributeError:
        check(i.u is us[0], 'and keeps its value')
