"""C27: File and image properties"""
import base64
import io
import json
import os
import shutil
import tempfile

import png
import properties
from hypothesis import strategies as st

from vlib import gens, model
from vlib.harness import facet
from vlib.values import build

ID = 'C27'
RULE = ('every file mode with every way of opening a source, names of files that do or do not '
        'exist, file-like objects and other values; histories of assignments, deletions and '
        'closed files on two objects; random PNG images from files, streams at any position, '
        'images and JSON; non-trivial: a file was accepted or a refusal was due')
FACETS = []
ASSUMPTIONS = ['assigning an already stored image stream again, images with rows already '
               'consumed and the closing of source files after copying are not claimed',
               'all files live in a scratch directory that the check creates and removes']

MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']
TEXT = 'first line\nsecond'


class Scratch(object):
    """A directory for one case, removed with all its files at the end"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-c27-')
        self.opened = []
        return self

    def name(self, part):
        return os.path.join(self.path, part)

    def write(self, part, data):
        with open(self.name(part), 'wb') as fid:
            fid.write(data)
        return self.name(part)

    def read(self, part):
        with open(self.name(part), 'rb') as fid:
            return fid.read()

    def keep(self, fid):
        self.opened.append(fid)
        return fid

    def __exit__(self, *args):
        for fid in self.opened:
            try:
                fid.close()
            except Exception:                                   # pylint: disable=broad-except
                pass
        shutil.rmtree(self.path)


class Stream(object):
    """A file-like object that has no mode"""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.was_closed = False

    def read(self, size=-1):
        end = len(self.data) if size is None or size < 0 else self.pos + size
        out = self.data[self.pos:end]
        self.pos += len(out)
        return out

    def seek(self, pos, whence=0):
        self.pos = (0, self.pos, len(self.data))[whence] + pos
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.was_closed = True


class Moded(Stream):

    def __init__(self, data, mode, closed=False):
        Stream.__init__(self, data)
        self.mode = mode
        self.closed = closed


class OnlyRead(object):
    mode = 'r'

    def read(self, size=-1):
        return ''


class OnlySeek(object):
    mode = 'r'

    def seek(self, pos):
        pass


# ---------------------------------------------------------------- modes

SOURCES = ([['open', m] for m in MODES] + [['name', n] for n in (
    'here', 'here', 'new', 'no/dir', 'dir', 'a\0b', '')] + [
        ['bytesio'], ['stringio'], ['stream'], ['temp', 'w+b'], ['temp', 'r+'],
        ['closed', 'r'], ['closed', 'rb'], ['closed bytesio'], ['only read'], ['only seek'],
        ['path'], ['bytes name'], ['none'], ['int'], ['class'], ['list'],
        ['raw', 'rb+']] + [['moded', m] for m in (
            'r', 'rb', 'wb+', 'x', 'rt', 'r+b', 'U', None, 1)] + [['moded closed', 'r']])


def mode_cases(tier):
    valid = [None, ['r'], ['rb', 'rb+'], ['w', 'r', 'wb'], MODES, ['wb+', 'ab']]
    for mode in [None] + MODES:
        for more in valid:
            if mode is None and more is not None:
                continue
            for source in SOURCES:
                for how in ('set', 'init', 'validate'):
                    yield mode, more, source, how


def make_source(source, tmp):
    """The value to assign and what is known of it"""
    kind = source[0]
    if kind == 'open':
        return tmp.keep(open(tmp.name('here'), source[1]))
    if kind == 'raw':
        return tmp.keep(open(tmp.name('here'), source[1], buffering=0))
    if kind == 'name':
        return tmp.name(source[1]) if source[1] != '' else ''
    if kind == 'bytesio':
        return io.BytesIO(b'abc')
    if kind == 'stringio':
        return io.StringIO(u'abc')
    if kind == 'stream':
        return Stream(b'abc')
    if kind == 'temp':
        return tmp.keep(tempfile.NamedTemporaryFile(source[1], dir=tmp.path)
                        if source[1] == 'w+b' else open(tmp.name('here'), source[1]))
    if kind == 'closed':
        fid = open(tmp.name('here'), source[1])
        fid.close()
        return fid
    if kind == 'closed bytesio':
        fid = io.BytesIO(b'abc')
        fid.close()
        return fid
    if kind == 'moded':
        return Moded(b'abc', source[1])
    if kind == 'moded closed':
        return Moded(b'abc', source[1], True)
    if kind == 'path':
        import pathlib
        return pathlib.Path(tmp.name('here'))
    return {'only read': OnlyRead(), 'only seek': OnlySeek(),
            'bytes name': tmp.name('here').encode(), 'none': None, 'int': 3,
            'class': io.BytesIO, 'list': [tmp.name('here')]}[kind]


def reported(fid):
    """The mode in which the file was opened, as far as it says"""
    return fid.mode if hasattr(fid, 'mode') else Ellipsis


def fits(mode, valid):
    if valid is None or mode is Ellipsis:
        return True
    # a file opened as 'wb+' reports 'rb+'
    return mode in valid or (mode == 'rb+' and 'wb+' in valid)


@facet('modes', cases=mode_cases, quick=3000, shards=6)
def check_modes(case, ctx):
    mode, more, source, how = case
    if more is not None and mode not in more:
        more = more + [mode]
    valid = more if more is not None else (None if mode is None else [mode])

    class Holder(properties.HasProperties):
        val = (properties.File('a file', mode=mode) if more is None else
               properties.File('a file', mode=mode, valid_modes=tuple(more)))
    with Scratch() as tmp:
        tmp.write('here', TEXT.encode())
        os.mkdir(tmp.name('dir'))
        value = make_source(source, tmp)
        before = tmp.read('here')
        is_name = source[0] == 'name'
        if is_name:
            good = mode is not None and source[1] in ('here', 'new') and (
                source[1] == 'here' or mode[0] in 'wa')
        elif source[0] in ('path', 'bytes name', 'none', 'int', 'list', 'only read',
                           'only seek', 'closed', 'closed bytesio', 'moded closed'):
            good = False
        elif source[0] == 'class':
            raise model.Unclaimed()
        else:
            good = fits(reported(value), valid)

        def run():
            if how == 'set':
                obj = Holder()
                obj.val = value
                return obj, obj.val
            if how == 'init':
                obj = Holder(val=value)
                return obj, obj.val
            return None, Holder._props['val'].validate(None, value)
        ctx.nontrivial()
        if not good:
            ctx.label('refused ' + source[0])
            if how == 'validate' and value is None:
                raise model.Unclaimed()
            ctx.raises(ValueError, run, '%r into File(mode=%r, valid_modes=%r)' % (
                source, mode, more))
            if is_name:
                ctx.check(not os.path.exists(tmp.name('no')), 'directory created')
                ctx.check(mode is not None or not os.path.exists(tmp.name('new')),
                          'file created without a mode')
                ctx.check(tmp.read('here') == before, 'a refused name changed the file')
            return
        obj, got = run()
        ctx.label('accepted ' + source[0])
        if not is_name:
            ctx.check(got is value, 'the file object was replaced')
            ctx.check(not getattr(got, 'closed', False), 'the file was closed')
            ctx.check(tmp.read('here') == before, 'the file was changed')
        else:
            tmp.keep(got)
            ctx.check(got.name == value, 'opened %r, not %r', got.name, value)
            ctx.check(got.mode == {'wb+': 'rb+'}.get(mode, mode), 'opened as %r, not %r',
                      got.mode, mode)
            ctx.check(not got.closed, 'opened file is closed')
            kept = before if source[1] == 'here' and mode[0] != 'w' else b''
            ctx.check(tmp.read(source[1]) == kept, 'opening in mode %r left %r', mode,
                      tmp.read(source[1]))
            ctx.check(got.tell() == (len(kept) if mode[0] == 'a' else 0),
                      'opened file is at %r', got.tell())
        if obj is not None:
            ctx.check(obj.val is got, 'every access gives another file')
            ctx.check(obj.validate() is True, 'an open file is not valid')
            del obj.val
            ctx.check(obj.val is None, 'the file is still there')
            ctx.check(got.was_closed if isinstance(got, Stream) else got.closed,
                      'deleting did not close the file')


# ---------------------------------------------------------------- histories

@st.composite
def histories(draw):
    mode = draw(st.sampled_from([None, 'r', 'rb', 'r+', 'a+', 'rb+', 'ab+']))
    valid = draw(st.lists(st.sampled_from(MODES), max_size=3))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['set', 'set', 'set', 'set name', 'same', 'close', 'del', 'bad', 'validate',
                         'read', 'write', 'give', 'none']),
        st.integers(0, 1), st.integers(0, 5)), min_size=2, max_size=12))
    return (mode, valid, draw(st.booleans()),
            draw(st.lists(st.sampled_from(MODES), min_size=6, max_size=6)), ops)


@facet('history', strategy=histories, quick=1200, shards=4)
def check_history(case, ctx):
    mode, valid, required, modes, ops = case
    if mode is None:
        valid = None
    elif valid:
        valid = list(valid) + [mode]

    class Holder(properties.HasProperties):
        val = (properties.File('a file', mode=mode, required=required,
                               **({'valid_modes': valid} if valid else {})))
    allowed = valid or (None if mode is None else [mode])
    with Scratch() as tmp:
        files = []
        for i, one in enumerate(modes):
            tmp.write('f%d' % i, TEXT.encode())
            files.append(tmp.keep(open(tmp.name('f%d' % i), one)))
        objs = [Holder(), Holder()]
        held = [None, None]
        closed = set()
        seen = list(files)
        for what, which, arg in ops:
            obj, here = objs[which], held[which]
            if what in ('set', 'same', 'give'):
                value = files[arg] if what == 'set' else held[which] if what == 'same' \
                    else held[1 - which]
                if value is None:
                    continue
                if fits(value.mode, allowed) and id(value) not in closed:
                    obj.val = value
                    held[which] = value
                    ctx.nontrivial()
                else:
                    ctx.raises(properties.ValidationError,
                               lambda v=value: setattr(obj, 'val', v), 'wrong or closed file')
            elif what == 'set name':
                path = tmp.name('f%d' % arg)
                if mode is None:
                    ctx.raises(properties.ValidationError,
                               lambda: setattr(obj, 'val', path), 'name without mode')
                else:
                    obj.val = path
                    ctx.check(obj.val.name == path and obj.val.mode == mode,
                              'opened %r', obj.val)
                    held[which] = tmp.keep(obj.val)
                    seen.append(obj.val)
                    ctx.nontrivial()
            elif what == 'close' and here is not None:
                here.close()
                closed.add(id(here))
            elif what in ('del', 'none') and what == 'del':
                del obj.val
                if here is not None:
                    closed.add(id(here))
                held[which] = None
            elif what in ('bad', 'none'):
                bad = [5, tmp.name('no/dir'), [], object(), b'x', {}][arg] if what == 'bad' else None
                ctx.raises(properties.ValidationError,
                           lambda v=bad: setattr(obj, 'val', v), 'bad value %r' % (bad,))
            elif what == 'validate':
                good = (not required) if here is None else id(here) not in closed
                if good:
                    ctx.check(obj.validate() is True, 'validate() gave something else')
                else:
                    ctx.raises(properties.ValidationError, obj.validate,
                               'validate with a %s file' % ('closed' if here else 'missing'))
                    ctx.nontrivial()
            elif what == 'read' and here is not None and id(here) not in closed:
                try:
                    here.read(arg)
                except io.UnsupportedOperation:
                    pass
            elif what == 'write' and here is not None and id(here) not in closed:
                try:
                    here.write('xyz' if 'b' not in here.mode else b'xyz')
                except io.UnsupportedOperation:
                    pass
            for i in (0, 1):
                ctx.check(objs[i].val is held[i], 'after %r: holds %r, expected %r', what,
                          objs[i].val, held[i])
            for fid in seen:
                ctx.check(fid.closed == (id(fid) in closed), 'after %r: %r is %s', what, fid,
                          'closed' if fid.closed else 'open')


# ---------------------------------------------------------------- images

@st.composite
def images(draw):
    """How to write a small PNG"""
    kind = draw(st.sampled_from(['grey', 'grey', 'rgb', 'rgba', 'palette', 'grey alpha']))
    width, height = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    bits = draw(st.sampled_from({'grey': [1, 2, 4, 8, 16], 'palette': [1, 2, 4, 8]}.get(
        kind, [8, 16])))
    planes = {'grey': 1, 'rgb': 3, 'rgba': 4, 'palette': 1, 'grey alpha': 2}[kind]
    top = 2 ** bits - 1 if kind != 'palette' else min(1, 2 ** bits - 1)
    rows = draw(st.lists(st.lists(st.integers(0, top), min_size=width * planes,
                                  max_size=width * planes),
                         min_size=height, max_size=height))
    return {'kind': kind, 'bits': bits, 'width': width, 'height': height, 'rows': rows,
            'interlace': draw(st.booleans()), 'extra': draw(st.binary(max_size=30))}


def png_bytes(img):
    kwargs = {}
    if img['kind'] == 'palette':
        kwargs['palette'] = [(0, 0, 0), (10, 200, 30)]
    else:
        kwargs['greyscale'] = img['kind'] in ('grey', 'grey alpha')
        kwargs['alpha'] = img['kind'] in ('rgba', 'grey alpha')
    out = io.BytesIO()
    png.Writer(img['width'], img['height'], bitdepth=img['bits'], interlace=img['interlace'],
               **kwargs).write(out, img['rows'])
    return out.getvalue()


def pixels(data):
    width, height, rows, info = png.Reader(bytes=data).read()
    return width, height, [list(r) for r in rows], info.get('bitdepth'), info.get('planes')


WAYS = ['name', 'rb', 'rb+', 'ab+', 'raw', 'bytesio', 'bytesio', 'stream', 'moded', 'image',
        'json', 'from_json', 'temp']


@st.composite
def picture_cases(draw):
    return (draw(images()), draw(st.sampled_from(WAYS)),
            draw(st.sampled_from(['rb', 'rb+', 'ab+', None])),
            draw(st.one_of(st.none(), st.sampled_from(['img.png', 'x', '', 'a/b.png']))),
            draw(st.one_of(st.integers(0, 200), st.sampled_from([0, 8, -1]))),
            draw(st.sampled_from(['set', 'init', 'validate'])),
            draw(st.lists(st.tuples(st.sampled_from(
                ['read', 'seek', 'serialize', 'to_json', 'load', 'copy', 'validate', 'again']),
                                    st.integers(0, 100)), min_size=1, max_size=6)))


def make_picture(img, way, position, data, tmp):
    if way in ('name', 'json', 'from_json'):
        return tmp.write('p.png', data)
    if way in ('rb', 'rb+', 'ab+', 'raw'):
        tmp.write('p.png', data)
        fid = tmp.keep(open(tmp.name('p.png'), way) if way != 'raw' else
                       open(tmp.name('p.png'), 'rb', buffering=0))
    elif way == 'temp':
        fid = tmp.keep(tempfile.NamedTemporaryFile('wb+', dir=tmp.path))
        fid.write(data)
        fid.flush()
    elif way == 'bytesio':
        fid = io.BytesIO(data)
    elif way == 'stream':
        fid = Stream(data)
    elif way == 'moded':
        fid = Moded(data, ['rb', 'rb+', 'wb+', 'ab+'][position % 4])
    else:
        assert way == 'image'
        mode = {'grey': 'L', 'rgb': 'RGB', 'rgba': 'RGBA', 'grey alpha': 'LA'}[img['kind']]
        return png.from_array([list(r) for r in img['rows']],
                              '%s;%d' % (mode, img['bits']))
    fid.seek(len(data) if position < 0 else min(position, len(data)))
    return fid


def check_stored(ctx, got, data, name, img, way, what):
    ctx.check(isinstance(got, io.BytesIO), '%s: holds %r', what, got)
    ctx.check(not got.closed, '%s: the copy is closed', what)
    ctx.check(got.tell() == 0, '%s: the copy is at %r', what, got.tell())
    ctx.check(getattr(got, 'name', None) == name, '%s: name is %r', what,
              getattr(got, 'name', None))
    if data is not None:
        ctx.check(got.getvalue() == data, '%s: %d bytes of %d: %r', what, len(got.getvalue()),
                  len(data), got.getvalue()[:80])
    else:
        ctx.check(pixels(got.getvalue()) == pixels(png_bytes(img)), '%s: another image', what)


@facet('pictures', strategy=picture_cases, quick=900, shards=5)
def check_pictures(case, ctx):
    img, way, mode, filename, position, how, ops = case
    if way == 'image' and (img['kind'] == 'palette' or img['bits'] < 8):
        way = 'bytesio'
    data = png_bytes(img) + img['extra']
    kwargs = {} if filename is None else {'filename': filename}
    if mode is not None:
        kwargs['mode'] = mode
    name = 'texture.png' if filename is None else filename

    class Holder(properties.HasProperties):
        val = properties.ImagePNG('a picture', **kwargs)
        num = properties.Integer('a number', default=1)
    text = 'data:image/png;base64,' + base64.b64encode(data).decode()
    ctx.label(way)
    ctx.nontrivial()
    with Scratch() as tmp:
        value = make_picture(img, way, position, data, tmp)
        fds = set(os.listdir('/proc/self/fd'))
        want = None if way == 'image' else data
        if way == 'json':
            obj = Holder.deserialize({'val': text, 'num': 3})
        elif way == 'from_json':
            value = properties.ImagePNG.from_json(text)
            ctx.check(value.read() == data, 'from_json is not at the start')
            value.seek(min(max(position, 0), len(data)))
            obj = Holder(val=value)
        elif how == 'init':
            obj = Holder(val=value)
        elif how == 'set':
            obj = Holder()
            obj.val = value
        else:
            obj = Holder()
            obj.val = Holder._props['val'].validate(None, value)
        stored = obj.val
        check_stored(ctx, stored, want, name, img, way, way)
        ctx.check(len(os.listdir('/proc/self/fd')) <= len(fds), 'a file was left open')
        full = stored.getvalue()
        if os.path.exists(tmp.name('p.png')):
            ctx.check(tmp.read('p.png') == data, 'the file was changed')
            other = Holder(val=tmp.name('p.png'))
            ctx.check(other.val is not stored, 'two objects share a copy')
            tmp.write('p.png', b'changed')          # the copy is private
            check_stored(ctx, other.val, data, name, img, way, 'file changed')
        if isinstance(value, Stream):
            value.data = b'changed'
        for what, arg in ops:
            if what == 'read':
                at = stored.tell()
                ctx.check(stored.read(arg) == full[at:at + arg], 'read something else')
            elif what == 'seek':
                stored.seek(arg)
            elif what in ('serialize', 'to_json'):
                at = stored.tell()
                got = (obj.serialize()['val'] if what == 'serialize' else
                       properties.ImagePNG.to_json(stored))
                ctx.check(got == 'data:image/png;base64,' + base64.b64encode(full).decode(),
                          '%s gave %r', what, got)
                json.dumps(got)
                ctx.check(stored.tell() in (0, at), '%s left the image at %r, was at %r', what,
                          stored.tell(), at)
            elif what in ('load', 'copy'):
                new = (Holder.deserialize(json.loads(json.dumps(obj.serialize())))
                       if what == 'load' else properties.copy(obj))
                ctx.check(new.val is not stored, '%s shares the stream', what)
                check_stored(ctx, new.val, full, name, img, way, what)
                new.val.seek(0)
                new.val.write(b'zzz')
                ctx.check(obj.val is stored, '%s changed the object', what)
            elif what == 'validate':
                ctx.check(obj.validate() is True, 'validate')
            elif what == 'again':
                obj.val = io.BytesIO(full)
                check_stored(ctx, obj.val, full, name, img, way, what)
                stored = obj.val
            ctx.check(obj.val is stored and stored.getvalue() == full,
                      '%s changed the image', what)
        stored.close()
        ctx.raises(properties.ValidationError, obj.validate, 'validate with a closed image')
        del obj.val
        ctx.check(obj.val is None, 'still an image')
        obj.val = io.BytesIO(full)
        last = obj.val
        del obj.val
        ctx.check(obj.val is None and last.closed, 'delete did not close the image')


# ---------------------------------------------------------------- not images

@st.composite
def refusals(draw):
    way = draw(st.sampled_from(['flip', 'flip', 'cut', 'bytes', 'text', 'write only', 'closed',
                                'missing', 'dir', 'raw bytes', 'other', 'other json', 'append only',
                                'wrong mode', 'stream text', 'data text']))
    return (way, draw(images()), draw(st.sampled_from(['name', 'rb', 'rb+', 'ab+', 'bytesio',
                                                       'stream'])),
            draw(st.integers(0, 7)), draw(st.integers(1, 255)), draw(st.integers(0, 300)),
            draw(st.binary(max_size=20)), draw(gens.junk()), draw(st.booleans()))


@facet('refused', strategy=refusals, quick=900, shards=3)
def check_refused(case, ctx):
    way, img, source, index, flip, position, some, junk, started = case
    data = png_bytes(img)
    junk = build(junk)

    class Holder(properties.HasProperties):
        val = properties.ImagePNG('a picture')

    class Strict(properties.HasProperties):
        val = properties.ImagePNG('a picture', mode='rb', valid_modes=('rb',))
    with Scratch() as tmp:
        keep = None
        if started:
            holders = [Holder(val=io.BytesIO(data)), Strict(val=io.BytesIO(data))]
        else:
            holders = [Holder(), Strict()]
        for obj in holders:
            keep = obj.val
            ctx.label(way)
            if way in ('flip', 'cut', 'bytes'):
                if way == 'flip':
                    bad = bytearray(data)
                    bad[index] ^= flip
                    bad = bytes(bad)
                elif way == 'cut':
                    bad = data[:index]
                else:
                    bad = some
                    if bad.startswith(data[:8]):
                        return
                value = make_picture(img, source, position, bad, tmp)
                if source in ('rb+', 'ab+') and isinstance(obj, Strict):
                    pass
            elif way == 'text':
                value = tmp.keep(open(tmp.write('p.png', data), 'r',
                                      encoding='latin-1', newline=''))
            elif way == 'write only':
                value = tmp.keep(open(tmp.name('p.png'), 'wb'))
            elif way == 'append only':
                value = tmp.keep(open(tmp.write('p.png', data), 'ab'))
            elif way == 'wrong mode':
                value = tmp.keep(open(tmp.write('p.png', data), ['rb+', 'ab+'][index % 2]))
                if not isinstance(obj, Strict):
                    continue
            elif way == 'closed':
                value = make_picture(img, 'rb' if source == 'name' else source, 0, data, tmp)
                value.close()
                if source == 'stream':
                    continue
            elif way == 'missing':
                value = tmp.name('none.png')
            elif way == 'dir':
                value = tmp.path
            elif way == 'raw bytes':
                value = [data, bytearray(data), data.decode('latin-1'),
                         list(data)][index % 4]
            elif way == 'stream text':
                value = io.StringIO(data.decode('latin-1'))
            elif way in ('other json', 'data text'):
                text = base64.b64encode(data).decode()
                bad = (junk if isinstance(junk, str) else text) if way == 'other json' else [
                    'data:image/jpg;base64,' + text, ' data:image/png;base64,' + text,
                    'data:image/png,' + text, 'Data:image/png;base64,' + text, text,
                    'data:image/png;base64,' + base64.b64encode(b'x' + data).decode(),
                    'data:image/png;base64,' + base64.b64encode(some).decode(),
                    'data:image/png;base64,'][index]
                ctx.nontrivial()
                ctx.raises(ValueError, lambda b=bad, o=obj: type(o).deserialize({'val': b}),
                           'loading %r' % bad[:60])
                continue
            else:
                value = junk
                if value is None or value is properties.undefined:
                    continue
            ctx.nontrivial()
            for what in ('set', 'init', 'validate'):
                def run(what=what, obj=obj):
                    if what == 'set':
                        obj.val = value
                    elif what == 'init':
                        return type(obj)(val=value)
                    else:
                        return type(obj)._props['val'].validate(None, value)
                    return obj.val
                err = ctx.raises(ValueError, run, '%s of a %s image' % (what, way))
                ctx.check(isinstance(err, properties.ValidationError),
                          '%s of a %s image: %r', what, way, err)
                ctx.check(obj.val is keep, 'a refused image changed the object')
                if keep is not None:
                    ctx.check(keep.getvalue() == data and not keep.closed,
                              'a refused image changed the old one')
