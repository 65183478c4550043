"""C15: choice of the file format, positions of buffers."""
import io
import json
import os
import warnings
from pathlib import Path
from unittest import mock
import numpy as np
from surfalize import Surface
from surfalize.exceptions import UnsupportedFileFormatError, FileFormatError
from surfalize.file import supported_formats_read, supported_formats_write
from rt import encode, gen, formats as fm
from rt.core import Stage

ID = 'C15'
RULE = ('Files of every readable format are stored under their own suffix (any letter case), suffixes of other formats, unknown '
        'and missing suffixes and in buffers and open file handles, and loaded with and without an explicit format; unreadable '
        'contents; surfaces saved under all combinations of suffix, format and target, accepted and refused; warnings, '
        'exceptions, buffer positions, previous contents and open file descriptors are recorded.')
ASSUMPTIONS = ['Formats start with a dot. Buffers are read from position 0; buffers without a known signature need a format.',
               'A generic zip archive carries the signature of x3p.']
REQUIRED = {f'event:{k}': 20 for k in encode.ENCODERS}
REQUIRED.update({'event:own suffix': 200, 'event:foreign suffix': 150, 'event:unknown suffix': 100, 'event:explicit': 200,
                 'event:buffer': 150, 'event:garbage': 150, 'event:saved': 300, 'event:save refused': 150, 'event:failed write': 20, 'event:examples': 60})
MISMATCH = 'The file suffix indicates'
READ = {'.sur', '.sdf', '.al3d', '.tmd', '.sflz', '.plu', '.plux', '.fits', '.fit', '.fts', '.gwy', '.opd', '.os3d', '.vk4', '.vk6',
        '.vk7', '.x3p', '.xyz', '.zmg', '.nms', '.dat'}
SIGNATURE = {'.sur': (b'DIGITAL SURF', b'DSCOMPRESSED'), '.sdf': (b'aISO-1.0', b'bISO-1.0'), '.al3d': (b'AliconaImaging',),
             '.tmd': (b'Binary TrueMap Data File v2.0',), '.sflz': (b'SFLZ',)}
SAME = [{'.fits', '.fit', '.fts'}, {'.vk6', '.vk7'}]


def family(suffix):
    for f in SAME:
        if suffix in f:
            return f
    return {suffix}


def mixed_case(rng, s):
    return ''.join(c.upper() if rng.random() < .5 else c for c in s)


def fds():
    return sorted(os.readlink(f'/proc/self/fd/{f}') for f in os.listdir('/proc/self/fd') if os.path.exists(f'/proc/self/fd/{f}'))


def attempt(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            return fn(), None, [str(x.message) for x in w]
        except Exception as e:
            return None, e, [str(x.message) for x in w]


def expect(case, e, s, err, what, **ctx):
    if err is not None:
        case.fail(f'{what}: raised {type(err).__name__} ({err})', **ctx)
    atol = np.full(e.z.shape, e.rtol * np.nanmax(np.abs(e.z), initial=0))
    fm.same_surface(case, what, s, e.z, e.sx, e.sy, atol, e.rstep, **ctx)


def sample(case, rng):
    names = list(encode.ENCODERS)
    name = names[case.idx % len(names)]
    while True:
        e = encode.ENCODERS[name](rng)
        if min(e.z.shape) >= 2 and e.z.size < 500 and not np.isnan(e.z).all():
            return name, e


def detect(case):
    rng = case.rng
    name, e = sample(case, rng)
    case.event(name)
    case.check(set(supported_formats_read) == READ and set(supported_formats_write) == set(SIGNATURE), 'supported formats')
    others = sorted(READ - family(e.suffix))
    before = fds()

    def store(suffix):
        p = os.path.join(case.tmp, str(rng.choice(['f', 'a.b', 'sur'])) + suffix)
        with open(p, 'wb') as fh:
            fh.write(e.data)
        return p if rng.random() < .5 else Path(p)

    # own suffix
    suf = mixed_case(rng, str(rng.choice(sorted(family(e.suffix)))))
    case.event('own suffix', suf)
    s, err, w = attempt(lambda: Surface.load(store(suf)))
    expect(case, e, s, err, f'{name} as {suf}')
    case.check(not any(m.startswith(MISMATCH) for m in w), 'warning although suffix and content agree', warnings=w, name=name)
    # foreign, unknown, missing suffix
    for kind, suf in (('foreign suffix', mixed_case(rng, str(rng.choice(others)))),
                      ('unknown suffix', str(rng.choice(['.foo', '.txt', '', '.surx', '.dat2'])))):
        case.event(kind, suf)
        s, err, w = attempt(lambda: Surface.load(store(suf)))
        if name == 'plux':            # has no signature of its own
            case.check(isinstance(err, FileFormatError), f'plux under {kind}', error=repr(err))
            continue
        if name in ('nms', 'plu', 'xyz') and kind == 'foreign suffix' and suf.lower() in ('.nms', '.plu'):
            continue                  # formats without any signature: whatever fits is accepted
        if e.magic or name == 'xyz' or kind == 'unknown suffix':
            expect(case, e, s, err, f'{name} under {kind}', suffix=suf)
            case.check(any(m.startswith(MISMATCH) for m in w), 'no warning about the mismatch of suffix and content', suffix=suf, name=name)
    # explicit format overrides the suffix
    suf = str(rng.choice(others + ['', '.foo']))
    fmt = mixed_case(rng, e.suffix)
    case.event('explicit', [suf, fmt])
    s, err, w = attempt(lambda: Surface.load(store(suf), format=fmt))
    expect(case, e, s, err, f'{name} with explicit format', suffix=suf, format=fmt)
    case.check(not any(m.startswith(MISMATCH) for m in w), 'warning although an explicit format is given', warnings=w)
    # buffers
    for how in ('bytes', 'handle'):
        b = io.BytesIO(e.data) if how == 'bytes' else open(store('.bin'), 'rb')
        kw = {'format': mixed_case(rng, e.suffix)} if rng.random() < .5 else {}
        case.event('buffer', [how, bool(kw)])
        s, err, w = attempt(lambda: Surface.load(b, **kw))
        if kw or e.magic:
            expect(case, e, s, err, f'{name} from a buffer', how=how, options=kw)
        else:
            case.check(isinstance(err, FileFormatError), f'{name} in a buffer without format', error=repr(err), got=repr(s))
            if name != 'plux':
                case.check(isinstance(err, UnsupportedFileFormatError), f'{name} in a buffer without format', error=repr(err))
        case.check(b.tell() == 0 and not b.closed, 'position of the buffer', pos=b.tell(), error=repr(err))
        b.close()
    case.note(name=name, shape=list(e.z.shape), events=len(case.events))
    case.check(fds() == before, 'open file descriptors', before=before, after=fds())


def garbage(case):
    """Contents without a recognisable format."""
    rng = case.rng
    k = rng.integers(4)
    if k == 0:
        data = bytes(rng.integers(0, 256, int(rng.integers(0, 4000)), dtype=np.uint8))
    elif k == 1:
        data = ('\n'.join('some text, no numbers %d' % i for i in range(rng.integers(0, 50)))).encode()
    elif k == 2:
        data = b'\0' * int(rng.integers(0, 5000))
    else:
        data = b'%PDF-1.4\n' + bytes(rng.integers(0, 256, 500, dtype=np.uint8))
    if any(data.startswith(x) for t in SIGNATURE.values() for x in t) or data[:3] in (b'VK6', b'VK7'):
        return
    case.event('garbage', int(k))
    case.note(kind=int(k), n=len(data))
    before = fds()
    p = os.path.join(case.tmp, 'g' + str(rng.choice(['.foo', '', '.txt', '.bin'])))
    with open(p, 'wb') as fh:
        fh.write(data)
    case.raises('a file without recognisable format', UnsupportedFileFormatError, lambda: fm.load(p))
    b = io.BytesIO(data)
    at = int(rng.integers(0, len(data) + 1))
    b.seek(at)
    case.raises('a buffer without recognisable format', UnsupportedFileFormatError, lambda: fm.load(b))
    case.check(b.tell() == at, 'position of the buffer after a failed attempt', at=at, pos=b.tell())
    case.raises('an unknown format', UnsupportedFileFormatError, lambda: fm.load(p, format='.unknown'))
    sig = [x for x in sorted(READ) if x not in ('.nms', '.plu')]
    fmt = str(rng.choice(sig))
    q = os.path.join(case.tmp, 'g' + fmt)
    with open(q, 'wb') as fh:
        fh.write(data)
    for target, kw in ((q, {}), (p, {'format': fmt}), (b, {'format': fmt})):
        s, err, w = attempt(lambda: Surface.load(target, **kw))
        case.check(err is not None, f'garbage accepted as {fmt}', target=str(target), got=repr(s))
        if k != 1:
            case.check(not isinstance(err, (AttributeError, NameError, UnboundLocalError)), 'kind of error', error=repr(err), fmt=fmt)
    case.check(b.tell() == at, 'position of the buffer after a failed attempt with a format', at=at, pos=b.tell(), fmt=fmt)
    case.raises('a missing file', FileNotFoundError, lambda: fm.load(os.path.join(case.tmp, 'missing' + str(rng.choice(['', '.sur', '.foo', '.x3p'])))))
    case.raises('neither path nor buffer', TypeError, lambda: fm.load(12345))
    case.raises('a directory', Exception, lambda: fm.load(case.tmp))
    case.check(fds() == before, 'open file descriptors', before=before, after=fds())


def written(case):
    rng = case.rng
    s, d = gen.surface(rng, 2, 12)
    case.note(**d)
    z = np.array(s.data)
    suf = str(rng.choice(['.sur', '.sdf', '.al3d', '.tmd', '.sflz', '.plu', '.foo', '', '.XYZ']))
    fmt = str(rng.choice(['', '.sur', '.sdf', '.al3d', '.tmd', '.sflz', '.opd', '.bar'])) or None
    suf_, fmt_ = mixed_case(rng, suf), None if fmt is None else mixed_case(rng, fmt)
    p = os.path.join(case.tmp, 'file' + suf_)
    old = None
    if rng.random() < .4:
        old = b'previous content'
        with open(p, 'wb') as fh:
            fh.write(old)
    before = fds()
    use = fmt or suf.lower()
    res, err, w = attempt(lambda: s.save(p if rng.random() < .5 else Path(p), **({'format': fmt_} if fmt_ else {})))
    if use in SIGNATURE:
        case.event('saved', [suf_, fmt_])
        case.check(err is None, f'saving to {suf_!r} with format {fmt_!r}: {err!r}')
        data = open(p, 'rb').read()
        case.check(any(data.startswith(x) for x in SIGNATURE[use]), 'format of the saved file', suffix=suf_, format=fmt_, start=repr(data[:20]))
        l = fm.load(p, format=use)
        atol, rstep = fm.accuracy(use, {}, z)
        fm.same_surface(case, f'saved to {suf_!r} with format {fmt_!r}', l, z, s.step_x, s.step_y, atol, rstep)
    else:
        case.event('save refused', [suf_, fmt_])
        exc = ValueError if not use else UnsupportedFileFormatError
        case.check(isinstance(err, exc), f'saving to {suf_!r} with format {fmt_!r}', error=repr(err), want=exc.__name__)
        case.check((open(p, 'rb').read() if os.path.exists(p) else None) == old, 'a refused save leaves the file alone', suffix=suf_, format=fmt_)
    case.check(fds() == before, 'open file descriptors', after=fds())
    # buffers
    pre = bytes(rng.integers(0, 256, int(rng.choice([0, 0, 13])), dtype=np.uint8))
    b = io.BytesIO(pre)
    b.seek(len(pre))
    if fmt == '.al3d' and pre:
        return
    res, err, w = attempt(lambda: s.save(b, **({'format': fmt_} if fmt_ else {})))
    case.check(b.tell() == len(pre), 'position of the buffer after saving', pos=b.tell(), want=len(pre), error=repr(err))
    if fmt in SIGNATURE:
        case.check(err is None, f'saving to a buffer with format {fmt_!r}: {err!r}')
        c = b.getvalue()
        case.check(c[:len(pre)] == pre, 'content before the position')
        atol, rstep = fm.accuracy(fmt, {}, z)
        fm.same_surface(case, f'saved to a buffer as {fmt_}', fm.load(io.BytesIO(c[len(pre):]), format=fmt), z, s.step_x, s.step_y, atol, rstep)
        fm.same_surface(case, f'saved to a buffer as {fmt_}, detected', fm.load(io.BytesIO(c[len(pre):])), z, s.step_x, s.step_y, atol, rstep)
    else:
        case.check(isinstance(err, ValueError if fmt is None else UnsupportedFileFormatError), 'saving to a buffer', format=fmt_, error=repr(err))
        case.check(b.getvalue() == pre, 'a refused save leaves the buffer alone')


class Full(io.BytesIO):
    """A buffer that fails after a number of bytes."""
    def __init__(self, room):
        super().__init__()
        self.room = room

    def write(self, data):
        self.room -= len(data)
        if self.room < 0:
            raise OSError(28, 'No space left on device')
        return super().write(data)


def faults(case):
    """Writes and reads that fail half-way: the error gets out, the position is restored, the surface is unchanged."""
    rng = case.rng
    s, d = gen.surface(rng, 2, 12)
    case.note(**d)
    snap = gen.snap(s)
    fmt = str(rng.choice(sorted(SIGNATURE)))
    o = fm.options(rng, fmt)
    whole = io.BytesIO()
    s.save(whole, format=fmt, **o)
    n = len(whole.getvalue())
    b = Full(int(rng.integers(0, max(1, n - 8))))
    case.event('failed write', [fmt, b.room])
    case.raises('saving to a full buffer', OSError, lambda: s.save(b, format=fmt, **o))
    case.check(b.tell() == 0, 'position after a failed write', pos=b.tell(), fmt=fmt)
    case.check(gen.snap_diff(snap, gen.snap(s)) is None, 'the surface is unchanged by a failed write')

    class Broken(io.BytesIO):
        left = int(rng.integers(1, 6))

        def read(self, *a):
            self.left -= 1
            if self.left < 0:
                raise OSError(5, 'Input/output error')
            return super().read(*a)
    r = Broken(whole.getvalue())
    res, err, w = attempt(lambda: Surface.load(r, format=fmt))
    case.check(r.tell() == 0, 'position after a failed read', pos=r.tell(), fmt=fmt, error=repr(err))
    if err is None:
        atol, rstep = fm.accuracy(fmt, o, np.array(s.data))
        fm.same_surface(case, 'read', res, np.array(s.data), s.step_x, s.step_y, atol, rstep)


class Web:
    """Stands in for the network: answers requests from a table."""

    def __init__(self, table):
        self.table, self.asked = table, []

    def __call__(self, url, *a, **k):
        self.asked.append(url)
        if url not in self.table:
            from requests.exceptions import ConnectionError
            raise ConnectionError('unreachable')
        content = self.table[url]

        class Answer:
            status_code, ok = 200, True
            text = property(lambda s: content.decode('utf-8'))

            def json(self):
                return json.loads(content)

            def raise_for_status(self):
                pass
        r = Answer()
        r.content = content
        return r


def examples(case):
    """Example files load as the file they name."""
    import requests
    import surfalize.examples as ex
    rng = case.rng
    files, table, listing = {}, {}, []
    for i in range(int(rng.integers(1, 6))):
        name, e = sample(case, rng) if i == 0 else (lambda n: (n, encode.ENCODERS[n](rng)))(str(rng.choice(list(encode.ENCODERS))))
        label = f'{rng.choice(["test", "a.b", "x y"])}{i}{e.suffix if rng.random() < .8 else e.suffix.upper()}'
        url = f'https://raw.example/{i}/{"blob" if rng.random() < .5 else label}'
        files[label] = (e, url)
        table[url] = e.data
        listing.append({'name': label, 'download_url': url, 'size': len(e.data), 'url': 'https://api.example/other'})
    table[ex.EXAMPLE_FILES_URL] = json.dumps(listing).encode()
    case.note(files=list(files))
    case.event('examples')
    web = Web(table)
    with mock.patch.object(requests, 'get', web):
        got = ex.list_examples()
        case.check([f.name for f in got] == list(files), 'names of the examples', got=[f.name for f in got], want=list(files))
        for f in got:
            e, url = files[f.name]
            web.asked.clear()
            if e.z is None or min(e.z.shape) < 1:
                continue
            s, err, _ = attempt(f.load)
            expect(case, e, s, err, f'example {f.name}')
            case.check(web.asked == [url], 'one file is downloaded', got=web.asked, want=url)
        suf = str(rng.choice([os.path.splitext(n)[1] for n in files]))
        got = ex.list_examples(format=suf) if rng.random() < .5 else ex.list_examples(suf)
        case.check([f.name for f in got] == [n for n in files if os.path.splitext(n)[1] == suf], 'examples of a format', got=[f.name for f in got])
        # files whose name tells nothing are identified by their content; failures of the network are reported
        e, url = files[list(files)[0]]
        if e.suffix in SIGNATURE:
            s, err, _ = attempt(lambda: ex.ExampleFile('noname', url).load())
            expect(case, e, s, err, 'example without suffix')
        case.raises('example that cannot be reached', OSError, lambda: ex.ExampleFile('a.sur', 'https://nowhere').load())
        web.table = {}
        case.raises('list that cannot be reached', OSError, ex.list_examples)


STAGES = [Stage('examples', examples, 300, 6000), Stage('detect', detect, 7200, 120000, timeout=60), Stage('garbage', garbage, 1600, 32000, timeout=60),
          Stage('written', written, 4800, 80000), Stage('faults', faults, 1200, 24000)]
