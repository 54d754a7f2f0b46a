"""C24: File and ImagePNG accept only usable open files in a valid mode."""
import base64
import builtins
import gzip
import io
import os
import tempfile
import png
import properties
from properties import undefined
from properties.images import PNG_PREAMBLE
from contracts.stubs import *    # noqa
from contracts import common    # noqa
from pyvc.api import *           # noqa

FILE = ['properties.basic:File.validate', 'properties.basic:File.valid_modes']
IMAGE = ['properties.images:ImagePNG.validate']
JSON = ['properties.images:ImagePNG.to_json', 'properties.images:ImagePNG.from_json']
MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']
BINARY = ['rb', 'rb+', 'wb+', 'ab+']


class AnyFile(object):
    """A file-like object; its attributes are set by the contract."""


class ReadSeek(AnyFile):
    """Something to read and seek."""

    def read(self, *args):
        return uf_value('content', self)

    def seek(self, *args):
        return None


class OnlyRead(AnyFile):
    def read(self, *args):
        return uf_value('content', self)


class OnlySeek(AnyFile):
    def seek(self, *args):
        return None


OPENED = [None]


def fake_open(file, mode='r', **kw):
    """Assumed contract of open: a readable and seekable object in that mode, or an error."""
    log('open', file, mode, len(kw))
    if uf_rare('cannot open', file):
        raise [IOError, FileNotFoundError, TypeError, PermissionError, IsADirectoryError][OPENED[0]]('no')
    return new_instance(ReadSeek, mode='rb+' if mode == 'wb+' else mode, closed=False)


def one_file():
    """Any object, with or without read, seek, mode and closed, and whether it can be read and seeked."""
    usable = choose('methods', [ReadSeek, OnlyRead, OnlySeek, AnyFile])
    attrs = {}
    if any_bool('with mode'):
        attrs['mode'] = any_value('its mode')
    if any_bool('with closed'):
        attrs['closed'] = any_bool('closed')
    return usable, new_instance(usable, **attrs), attrs


def opens(mode, modes):
    """A file that says it is open in this mode is open in a valid one."""
    return mode in modes or (mode == 'rb+' and 'wb+' in modes)


@contract('C24', FILE, trials=1500)
def file_validate():
    """Any file-like object against any list of valid modes."""
    p = properties.File('doc')
    p._name = 'prop'
    modes = mkseq('valid modes', lambda i: uf_str('valid mode', i)) if any_bool('modes') else None
    if modes is not None:
        p._valid_mode = modes
    kind, value, attrs = one_file()
    if 'mode' in attrs:
        assume(attrs['mode'] is None or isinstance(attrs['mode'], (str, int)))
    ok = kind is ReadSeek and not attrs.get('closed', False)
    try:
        got = p.validate(None, value)
    except properties.ValidationError:
        cover('rejected')
        if ok:
            check(modes is not None and 'mode' in attrs, 'an open file is accepted')
            check(not opens(attrs['mode'], modes), 'a file in a valid mode is accepted')
        return
    cover('accepted')
    check(got is value, 'the file itself is returned')
    check(kind is ReadSeek, 'objects without read or seek are rejected')
    check(not attrs.get('closed', False), 'closed files are rejected')
    if modes is not None and 'mode' in attrs:
        check(opens(attrs['mode'], modes), 'files in other modes are rejected')


@contract('C24', FILE, trials=600)
def file_default_modes():
    """Without valid_modes the only valid mode is mode; without mode any is."""
    mode = choose('mode', [None] + MODES)
    p = properties.File('doc', mode=mode)
    p._name = 'prop'
    m = choose('its mode', MODES)
    value = new_instance(ReadSeek, mode=m)
    try:
        got = p.validate(None, value)
    except properties.ValidationError:
        check(mode is not None and not opens(m, [mode]), 'a file in the mode of the property is accepted')
        return
    check(mode is None or opens(m, [mode]), 'files in other modes are rejected')
    check(got is value, 'the file itself is returned')


@contract('C24', FILE, trials=800)
def file_name():
    """Every string is opened exactly once in exactly the mode of the property, if it has one; else it is rejected."""
    stand_in(open, fake_open)
    OPENED[0] = choose('error', [0, 1, 2, 3, 4])
    mode = choose('mode', [None] + MODES)
    p = properties.File('doc', mode=mode) if any_bool('only this mode') or mode is None else \
        properties.File('doc', mode=mode, valid_modes=[mode, 'r'])
    p._name = 'prop'
    name = any_str('name')
    clear_trace()
    try:
        got = p.validate(None, name)
    except properties.ValidationError:
        check(mode is None or uf_rare('cannot open', name), 'files that can be opened are accepted')
        check(same_seq(trace(), [('open', name, mode, 0)] if mode is not None else []), 'names are opened only if there is a mode')
        cover('rejected')
        return
    check(mode is not None, 'without a mode names are rejected')
    check(same_seq(trace(), [('open', name, mode, 0)]), 'the file is opened once, in exactly this mode')
    check(isinstance(got, ReadSeek), 'the opened file is returned')
    cover('opened')


@contract('C24', ['properties.basic:File.mode', 'properties.basic:File.valid_modes'], trials=800)
def mode_settings():
    """mode is None or a file mode; valid_modes contains mode and only file modes."""
    v = any_str('mode') if any_bool('arbitrary') else choose('mode', [None] + MODES)
    image = any_bool('image')
    cls = properties.ImagePNG if image else properties.File
    known = BINARY if image else MODES
    try:
        p = cls('doc', mode=v)
    except TypeError:
        check(v not in known and (image or v is not None), 'every file mode is accepted')
        return
    check((v is None and not image) or v in known, 'only file modes are accepted')
    check(p.mode == v, 'and stored')
    a, b = any_str('a') if any_bool('arbitrary a') else choose('a', MODES), choose('b', ['r', 'rb', 'x'])
    form = choose('form', [0, 1])
    modes = [a, (a, b)][form]
    if form == 1:
        good = (v == a or v == b) and a in known and b in known
    else:
        good = v == a and a in known
    old = p.valid_modes
    try:
        p.valid_modes = modes
    except TypeError:
        check(not good, 'file modes with the own one among them are accepted')
        check(p.valid_modes == old, 'a refused setting changes nothing')
        return
    cover('set')
    check(good, 'other modes are rejected')
    check(list(p.valid_modes) == [a, b] if form == 1 else list(p.valid_modes) == [a], 'and stored')


class Held(AnyFile):
    """A stored file."""

    def read(self):
        return uf_value('content', self)

    def seek(self, n):
        return None

    def close(self):
        log('close', self)
        if uf_rare('close raises', self):
            raise uf_exc('close error', self)


class FileOwner(properties.HasProperties):
    _REGISTRY = dict()
    fid = properties.File('a file', required=False)
    img = properties.ImagePNG('an image', required=False)
    other = properties.File('another file', required=False)


@contract('C24', ['properties.basic:File.get_property'], trials=300)
def delete_closes():
    """Deleting closes the stored file, once, and only that one; with nothing stored it just deletes."""
    name = choose('name', ['fid', 'img'])
    f = abstract(Held, 'held', (0,))
    g = abstract(Held, 'held', (1,))
    stored = choose('stored', ['file', 'none', 'unset'])
    backend = {'other': g}
    if stored != 'unset':
        backend[name] = f if stored == 'file' else None
    o = new_instance(FileOwner, _backend=backend)
    clear_trace()
    try:
        if name == 'fid':
            del o.fid
        else:
            del o.img
    except Exception as e:
        check(stored == 'file' and uf_rare('close raises', f) and e is uf_exc('close error', f), 'only errors of close propagate')
        return
    check(same_seq(trace(), [('close', f)] if stored == 'file' else []), 'the stored file is closed once, no other one')
    check(getattr(o, name) is None, 'nothing is stored')
    check(o.other is g, 'other files stay')


def data(pos):
    return uf_data('content from', pos)


class Source(object):
    """A file with content: reading from somewhere gives the content from there."""

    def read(self, *args):
        log('read', self)
        pos = self.pos
        self.pos = 1
        return data(pos)

    def seek(self, pos, *whence):
        log('seek', pos)
        self.pos = pos
        return pos

    def tell(self):
        return self.pos

    def close(self):
        log('close', self)


class FakeReader(object):
    """Assumed contract of png.Reader: reads the signature where the file stands."""

    def __init__(self, _guess=None, file=None):
        self.source = _guess if file is None else file

    def validate_signature(self):
        pos = self.source.pos
        self.source.pos = 2
        if uf_bool('no signature at', pos):
            raise png.FormatError('PNG file has invalid signature.')
        if uf_bool('nothing at', pos):
            raise EOFError('End of PNG stream.')


class Buffer(object):
    """Assumed contract of BytesIO."""

    def __init__(self, *args):
        self.written = list(args)
        self.pos = 0
        self.closed = False

    def write(self, chunk):
        self.written.append(chunk)
        self.pos = len(self.written)

    def read(self, *args):
        return self.written[0]

    def seek(self, pos):
        self.pos = pos

    def close(self):
        self.closed = True


@contract('C24', IMAGE, trials=1200)
def image_validate():
    """A file becomes an in-memory copy of its content from the start, rewound; content that is no PNG is rejected."""
    stand_in(png.Reader, FakeReader)
    stand_in(io.BytesIO, Buffer)
    p = properties.ImagePNG('doc')
    p._name = 'prop'
    named = any_bool('filename')
    if named:
        p._filename = any_str('filename')
    src = new_instance(Source, pos=any_int('position'))
    good = not uf_bool('no signature at', 0) and not uf_bool('nothing at', 0)
    clear_trace()
    try:
        got = p.validate(None, src)
    except properties.ValidationError:
        check(not good, 'PNG files are accepted wherever they stand')
        cover('rejected')
        return
    check(good, 'other content is rejected')
    check(isinstance(got, Buffer), 'an in-memory copy is returned')
    check(len(got.written) == 1 and same(got.written[0], data(0)), 'of exactly the bytes of the file from its start')
    check(got.pos == 0, 'rewound')
    check(got.name == (p._filename if named else 'texture.png'), 'with the configured name')
    cover('copied')
    check(p.validate(None, got) is got, 'its own result is accepted unchanged')
    check(len(got.written) == 1 and got.pos == 0, 'and left as it is')
    got.close()
    try:
        p.validate(None, got)
    except properties.ValidationError:
        return
    fail('a closed image is rejected')


class FakeImage(png.Image):
    """A png.Image."""

    def __init__(self):
        pass

    def write(self, out):
        log('written', self)
        out.write(uf_data('encoded', 0))


@contract('C24', IMAGE, trials=200)
def image_object():
    """A png.Image is written to a rewound in-memory file."""
    stand_in(png.Reader, FakeReader)
    stand_in(io.BytesIO, Buffer)
    p = properties.ImagePNG('doc')
    p._name = 'prop'
    got = p.validate(None, FakeImage())
    check(isinstance(got, Buffer) and len(got.written) == 1 and same(got.written[0], uf_data('encoded', 0)), 'the image is written once')
    check(got.pos == 0, 'rewound')
    check(p.validate(None, got) is got, 'its own result is accepted unchanged')


class Text(object):
    def decode(self, *args):
        return uf_str('base 64 text', 0)


def fake_encode(content):
    """Assumed contract of b64encode."""
    log('encode', content)
    return abstract(Text, 'base 64', ())


@contract('C24', JSON[:1], trials=300)
def image_to_json():
    """to_json encodes the content from the start wherever the file stands, and rewinds it."""
    stand_in(base64.b64encode, fake_encode)
    src = new_instance(Source, pos=any_int('position'))
    clear_trace()
    got = properties.ImagePNG.to_json(src)
    check(got == 'data:image/png;base64,' + uf_str('base 64 text', 0), 'the preamble and the encoded content')
    check(same_seq([x for x in trace() if x[0] == 'encode'], [('encode', data(0))]), 'the whole content is encoded')
    check(src.pos == 0, 'the file is rewound')


def fake_decode(text):
    """Assumed contract of b64decode."""
    log('decode', text)
    return uf_data('decoded', 0)


@contract('C24', JSON[1:], trials=500)
def image_from_json():
    """Text with the preamble becomes a rewound file of the decoded rest; every other text is rejected."""
    stand_in(base64.b64decode, fake_decode)
    stand_in(io.BytesIO, Buffer)
    text = any_str('text')
    if any_bool('with preamble'):
        text = 'data:image/png;base64,' + text
    clear_trace()
    try:
        got = properties.ImagePNG.from_json(text)
    except ValueError:
        check(not text.startswith('data:image/png;base64,'), 'text with the preamble is accepted')
        return
    check(text.startswith('data:image/png;base64,'), 'other text is rejected')
    check(len(got.written) == 1 and same(got.written[0], uf_data('decoded', 0)) and got.pos == 0, 'a rewound file of the decoded bytes')
    ev = trace()
    check(len(ev) == 1, 'decoded once')
    cover('decoded')


CONTENT = b'some content\nof a file\n'


def png_bytes(r):
    """A real PNG image."""
    b = io.BytesIO()
    w, h = r.choice([1, 2, 5]), r.choice([1, 3])
    png.from_array([[r.randrange(256) for _ in range(w)] for _ in range(h)], 'L').write(b)
    return b.getvalue()


@bounded('C24', FILE + ['properties.basic:File.mode'], trials=1200)
def real_files():
    """Real files in a scratch directory: every mode, names and open files, text and binary, closed ones."""
    r = rng()
    mode = r.choice([None] + MODES)
    modes = sorted({mode} | set(r.sample(MODES, r.randrange(4)))) if mode is not None and r.random() < 0.5 else None
    p = properties.File('doc', mode=mode, **({'valid_modes': r.choice([tuple, list, set])(modes)} if modes else {}))
    valid = modes or ([mode] if mode else None)
    with tempfile.TemporaryDirectory(prefix='pyvc') as tmp:
        there, missing = os.path.join(tmp, 'there'), os.path.join(tmp, 'missing')
        with open(there, 'wb') as f:
            f.write(CONTENT)
        what = r.choice(['name', 'name', 'missing', 'directory', 'null', 'open', 'open', 'open', 'stream', 'text', 'gzip', 'other'])
        note('case', (mode, modes, what))
        if what in ('name', 'missing', 'directory', 'null'):
            name = {'name': there, 'missing': missing, 'directory': tmp, 'null': 'a\0b'}[what]
            ok = mode is not None and what in ('name', 'missing')
            if what == 'missing' and mode is not None and 'r' in mode:
                ok = False
            try:
                got = p.validate(None, name)
            except ValueError as e:
                check(not ok, 'files that can be opened are accepted', lambda: str(e))
                check(os.path.exists(missing) is False, 'nothing is created when it is rejected')
                with open(there, 'rb') as f:
                    check(f.read() == CONTENT, 'nor changed')
                return
            check(ok, 'other names are rejected')
            cover('opened')
            try:
                check(got.name == name and not got.closed, 'the named file is open')
                check(isinstance(got, io.TextIOBase) is ('b' not in mode), 'as text or binary')
                check(got.readable() is ('r' in mode or '+' in mode), 'readable as the mode says')
                check(got.writable() is (mode not in ('r', 'rb')), 'writable as the mode says')
                check(os.path.getsize(name) == (0 if 'w' in mode or what == 'missing' else len(CONTENT)), 'truncated only by w')
                check(p.validate(None, got) is got, 'the opened file is valid')
            finally:
                got.close()
            return
        opened = None
        if what == 'open':
            opened = r.choice(MODES)
            v = open(there, opened)
            ok = valid is None or opened in valid or (opened == 'wb+' and 'rb+' in valid) or (opened == 'rb+' and 'wb+' in valid)
        elif what == 'stream':
            v, ok = io.BytesIO(CONTENT), True
        elif what == 'text':
            v, ok = io.StringIO('text'), True
        elif what == 'gzip':
            v = gzip.GzipFile(os.path.join(tmp, 'z'), 'wb')
            ok = valid is None
        else:
            v, ok = r.choice([5, None, [], object(), b'name', {'read': 1, 'seek': 2}]), False
        if what != 'other' and r.random() < 0.3:
            v.close()
            ok = False
        try:
            got = p.validate(None, v)
        except ValueError as e:
            check(not ok, 'usable files are accepted', lambda: str(e))
            return
        finally:
            if what != 'other':
                state_ = v.closed
                v.close()
        check(ok, 'unusable files are rejected')
        check(got is v and not state_, 'the file itself is returned, open')
        cover('accepted')


@bounded('C24', ['properties.basic:File.get_property'], trials=300)
def real_delete():
    """Deleting a File property closes the file; assigning another one does not."""
    r = rng()
    name = r.choice(['fid', 'img'])
    o = FileOwner()
    first, second = [io.BytesIO(png_bytes(r)) for _ in range(2)]
    setattr(o, name, first)
    a = getattr(o, name)
    check(not a.closed, 'the stored file is open')
    if name == 'fid':
        check(a is first, 'the file itself is stored')
    if r.random() < 0.5:
        setattr(o, name, second)
        check(not a.closed, 'replacing it closes nothing')
    o.other = io.BytesIO(b'x')
    b = getattr(o, name)
    delattr(o, name)
    check(b.closed, 'deleting closes the stored file')
    check(getattr(o, name) is None, 'and removes it')
    check(not o.other.closed, 'other files stay open')
    try:
        setattr(o, name, b)
    except properties.ValidationError:
        return
    fail('a closed file is rejected')


@bounded('C24', IMAGE + JSON, trials=600)
def real_images():
    """Real PNG files, streams and images at any read position; other content; JSON round trips."""
    r = rng()
    content = png_bytes(r)
    mode = r.choice(BINARY)
    kw = {'filename': 'own.png'} if r.random() < 0.3 else {}
    p = properties.ImagePNG('doc', mode=mode, **kw)
    how = r.choice(['stream', 'stream', 'file', 'name', 'image', 'other', 'other'])
    note('case', (mode, how))
    with tempfile.TemporaryDirectory(prefix='pyvc') as tmp:
        path = os.path.join(tmp, 'image.png')
        bad = r.choice([b'', b'\x89PNG', b'GIF89a' + content, content[1:], b'garbage' + content, content[:7] + b'x' + content[8:]])
        with open(path, 'wb') as f:
            f.write(bad if how == 'other' else content)
        if how == 'stream':
            v = io.BytesIO(content)
        elif how == 'file':
            v = open(path, r.choice(['rb', 'rb+', 'ab+']))
        elif how == 'name':
            v = path
        elif how == 'image':
            v = png.from_array([[r.randrange(256) for _ in range(3)] for _ in range(2)], 'L')
        else:
            v = r.choice([io.BytesIO(bad), path, io.StringIO('text'), 5, None, open(path, 'rb'), content])
        if hasattr(v, 'seek') and not isinstance(v, io.StringIO):
            v.seek(r.choice([0, 0, 3, 8, 7, 1000]))
        ok = how != 'other' and not (how == 'name' and mode == 'wb+')
        try:
            got = p.validate(None, v)
        except ValueError as e:
            check(not ok, 'PNG images are accepted', lambda: str(e))
            return
        finally:
            if hasattr(v, 'close'):
                v.close()
        check(ok, 'other content is rejected')
    cover('accepted')
    check(isinstance(got, io.BytesIO) and got.tell() == 0, 'a rewound in-memory file')
    check(got.name == kw.get('filename', 'texture.png'), 'with the configured name')
    data_ = got.getvalue()
    if how == 'image':
        w, h, rows, info = png.Reader(bytes=data_).read()
        check((w, h) == (3, 2) and len(list(rows)) == 2, 'the image can be read back')
    else:
        check(data_ == content, 'of exactly the given bytes')
    check(p.validate(None, got) is got and got.tell() == 0, 'its own result is accepted unchanged')
    got.seek(r.choice([0, 1, 5, 10000]))
    text = p.to_json(got)
    check(isinstance(text, str) and text == 'data:image/png;base64,' + base64.b64encode(data_).decode(), 'the base64 text of the bytes')
    check(got.tell() == 0, 'rewound')
    check(p.serialize(got) == text, 'serialize gives the same')
    back = p.from_json(text)
    check(back.read() == data_, 'from_json gives the bytes back, from the start')
    again = p.validate(None, p.deserialize(text))
    check(again.read() == data_, 'deserialize gives a valid image with the same bytes')
    broken = r.choice([text[1:], text.replace('png', 'gif', 1), '', 'data:image/png;base64', text[len('data:image/png;base64,'):]])
    try:
        p.from_json(broken)
    except ValueError:
        return
    fail('text without the preamble is rejected')
