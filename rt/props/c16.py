"""C16: damaged and hostile files."""
import hashlib
import io
import os
import re
import resource
import struct
import time
import zipfile
import numpy as np
from surfalize import Surface
from rt import encode, formats as fm
from rt.core import Stage

ID = 'C16'
RULE = ('Well-formed files of every format are truncated at every kind of position, flipped, overwritten with extreme integers '
        'and floats at every header position, spliced with other files, duplicated, and their text numbers, XML and zip members '
        'edited; loaded from paths and buffers with and without image layers under an address space limit and a watchdog. '
        'Monitors: kind of outcome, time, shape and heights after truncation, open descriptors, position of the buffer.')
ASSUMPTIONS = ['Any Python exception is a clean refusal; address space limited to 6 GB; one load takes less than 20 s.',
               'xyz files do not state their number of points; fits files that lose a whole extension are complete files.']
REQUIRED = {f'event:{k}': 60 for k in encode.ENCODERS}
REQUIRED.update({'event:truncated': 800, 'event:refused': 1500, 'event:loaded': 300, 'event:header': 400, 'event:flip': 400,
                 'event:text': 100, 'event:zip member': 100, 'event:splice': 100, 'event:checksum': 300})
LIMIT = 20.0


def limit_memory():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    want = 6 << 30
    if soft == resource.RLIM_INFINITY or soft > want:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))


def fds():
    return sum(1 for _ in os.listdir('/proc/self/fd'))


def well_formed(case, s, what, **ctx):
    d = s.data
    case.check(isinstance(d, np.ndarray) and d.ndim == 2, f'{what}: heights are not a two-dimensional array', got=repr(d)[:100], **ctx)
    case.check(d.dtype.kind in 'fiu', f'{what}: type of the heights {d.dtype}', **ctx)
    case.check(tuple(s.size) == d.shape, f'{what}: size', **ctx)


def run(case, rng, data, suffix, what, **ctx):
    """Loads data; returns the surface or None."""
    limit_memory()
    opts = {}
    if rng.random() < .6:
        opts['read_image_layers'] = bool(rng.random() < .7)
    before = fds()
    t0 = time.monotonic()
    b = None
    if rng.random() < .5:
        p = os.path.join(case.tmp, 'f' + (suffix if rng.random() < .8 else '.foo'))
        with open(p, 'wb') as fh:
            fh.write(data)
        target = p
    else:
        b = target = io.BytesIO(data)
        opts['format'] = suffix
    try:
        s = fm.load(target, **opts)
    except Exception as e:
        case.event('refused')
        case.count('refused:' + type(e).__name__)
        s = None
        del e
    dt = time.monotonic() - t0
    case.check(dt < LIMIT, f'{what}: loading took {dt:.1f} s', **ctx)
    case.check(fds() <= before, f'{what}: open file descriptors', **ctx)
    if b is not None:
        case.check(b.tell() == 0, f'{what}: position of the buffer', pos=b.tell(), **ctx)
    if s is not None:
        case.event('loaded')
        well_formed(case, s, what, **ctx)
    return s


def base(case):
    rng = case.rng
    names = list(encode.ENCODERS)
    name = names[case.idx % len(names)]
    while True:
        e = encode.ENCODERS[name](rng)
        if len(e.data) < 60000:
            break
    case.event(name)
    return rng, name, e


def truncate(case):
    rng, name, e = base(case)
    n = len(e.data)
    cuts = {0, 1, n - 1, int(rng.integers(0, n)), int(rng.integers(0, n)), max(0, n - int(rng.integers(1, 40))), int(rng.integers(0, min(n, 900)))}
    if name == 'fits':
        cuts |= {2880 * int(rng.integers(0, n // 2880 + 1)), 2880 * (n // 2880) - 2880}
    case.note(name=name, n=n, what=e.what, cuts=sorted(cuts))
    for c in sorted(cuts):
        if not 0 <= c < n:
            continue
        case.event('truncated')
        s = run(case, rng, e.data[:c], e.suffix, f'{name} truncated', cut=c, of=n)
        if s is None or not e.sized:
            continue
        case.check(tuple(s.data.shape) == e.z.shape, f'{name} truncated: loads with another size', cut=c, of=n, got=s.data.shape, want=e.z.shape)
        d = np.asarray(s.data, float)
        if name == 'fits':
            both = ~np.isnan(d) & ~np.isnan(e.z)
        else:
            case.same(f'{name} truncated: loads with other missing points', np.isnan(d), np.isnan(e.z), cut=c, of=n)
            both = ~np.isnan(e.z)
        if both.any():
            scale = np.abs(e.z[both]).max()
            case.close(f'{name} truncated: loads with other heights', d[both], e.z[both], rtol=0, atol=(e.rtol + 1e-12) * scale, cut=c, of=n)


EXTREME = [('<I', v) for v in (0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x10000, 100000)] + \
          [('<H', v) for v in (0, 1, 0x7fff, 0x8000, 0xffff)] + [('>I', v) for v in (0x7fffffff, 0xffffffff)] + [('>H', 0xffff)] + \
          [('<f', v) for v in (0.0, -1.0, float('nan'), float('inf'), 1e38)] + [('<d', v) for v in (0.0, float('nan'), 1e300, -1.0)] + [('<B', 255), ('<B', 0)]


def mutate_header(rng, data):
    a = bytearray(data)
    top = min(len(a), int(rng.choice([40, 120, 360, 900, 4200])))
    for _ in range(int(rng.choice([1, 1, 1, 2, 3]))):
        f, v = EXTREME[rng.integers(len(EXTREME))]
        pos = int(rng.integers(0, max(1, top - struct.calcsize(f))))
        if rng.random() < .6:
            pos -= pos % 2
        if pos + struct.calcsize(f) <= len(a):
            struct.pack_into(f, a, pos, v)
    return bytes(a)


def flip(rng, data):
    a = bytearray(data)
    if not a:
        return b''
    top = len(a) if rng.random() < .5 else min(len(a), 600)
    for _ in range(int(rng.choice([1, 1, 2, 5, 30]))):
        i = int(rng.integers(top))
        a[i] ^= 1 << int(rng.integers(8)) if rng.random() < .6 else int(rng.integers(1, 256))
    return bytes(a)


NUMBERS = [b'0', b'-1', b'1', b'99999999999', b'1e308', b'nan', b'inf', b'', b'x', b'100000', b'3', b'4294967296', b'-7.5']


def text_edit(rng, data):
    spots = list(re.finditer(rb'(?<![\w.])-?\d+(\.\d+)?(e-?\d+)?', data[:6000]))
    if not spots:
        return flip(rng, data)
    m = spots[rng.integers(len(spots))]
    new = NUMBERS[rng.integers(len(NUMBERS))]
    if rng.random() < .7:                   # cards have a fixed width
        new = new.rjust(m.end() - m.start())[:m.end() - m.start()]
    return data[:m.start()] + new + data[m.end():]


def zip_edit(rng, data):
    """Replaces one member of the archive by a damaged one (with valid checksums), drops or duplicates it."""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as a:
            members = [(n, a.read(n)) for n in a.namelist()]
    except zipfile.BadZipFile:
        return flip(rng, data)
    prefix = data[:3] + bytes(20) if data[:2] == b'VK' else b''
    i = int(rng.integers(len(members)))
    n, c = members[i]
    r = rng.integers(6)
    if r == 0:
        members.pop(i)
    elif r == 1:
        members[i] = (n, c[:rng.integers(len(c) + 1)])
    elif r == 2:
        members[i] = (n, c + c)
    elif c[:5] == b'<?xml':
        if rng.random() < .15:
            bomb = b'<!DOCTYPE x [<!ENTITY a "aaaaaaaaaa">' + b''.join(
                b'<!ENTITY %c "%s">' % (98 + k, b'&%c;' % (97 + k) * 10) for k in range(12)) + b']>'
            j = c.index(b'?>') + 2
            k = c.index(b'>', j) + 1
            members[i] = (n, c[:j] + bomb + c[j:k] + b'&m;' + c[k:])
        elif rng.random() < .3:
            tags = list(re.finditer(rb'<[A-Za-z0-9_]+>', c))
            t = tags[rng.integers(len(tags))]
            members[i] = (n, c[:t.start() + 1] + b'q' + c[t.start() + 1:] if rng.random() < .5 else c.replace(t.group()[1:-1], b'Zz'))
        else:
            members[i] = (n, text_edit(rng, c))
    else:
        members[i] = (n, mutate_header(rng, c) if rng.random() < .5 else flip(rng, c))
    d = dict(members)
    if 'md5checksum.hex' in d and 'main.xml' in d and rng.random() < .9:
        members = [(k, hashlib.md5(d['main.xml']).hexdigest().encode() if k == 'md5checksum.hex' else v) for k, v in members]
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED) as a:
        for k, v in members:
            a.writestr(k, v)
    return prefix + bio.getvalue()


def damage(case):
    rng, name, e = base(case)
    log = []
    for _ in range(5):
        r = rng.random()
        if name in ('plux', 'x3p', 'vk6', 'vk7') and r < .7:
            kind, data = 'zip member', zip_edit(rng, e.data)
        elif name in ('fits', 'xyz', 'sdf', 'al3d', 'gwy') and r < .35:
            kind, data = 'text', text_edit(rng, e.data)
        elif r < .6:
            kind, data = 'header', mutate_header(rng, e.data)
        elif r < .85:
            kind, data = 'flip', flip(rng, e.data)
        elif r < .92:
            other = encode.ENCODERS[list(encode.ENCODERS)[rng.integers(len(encode.ENCODERS))]](rng).data
            k = int(rng.integers(0, len(e.data)))
            kind, data = 'splice', e.data[:k] + other[min(k, len(other)):]
        else:
            a, b = sorted(rng.integers(0, len(e.data) + 1, 2))
            kind, data = 'splice', e.data[:b] + e.data[a:] if rng.random() < .5 else e.data[:a] + e.data[b:]
        case.event(kind)
        log.append([kind, hashlib.sha1(data).hexdigest()[:8]])
        run(case, rng, data, e.suffix, f'{name} with damaged content ({kind})', kind=kind, sha=log[-1][1])
    case.note(name=name, n=len(e.data), what=e.what, log=log)


def checksums(case):
    """Damage within data that is stored with a checksum."""
    rng = case.rng
    name = ['sur', 'plux', 'x3p', 'sflz'][case.idx % 4]
    if name == 'sflz':
        z = np.round(rng.normal(size=(int(rng.integers(3, 30)), int(rng.integers(3, 30)))), 1)
        kind = str(rng.choice(['zlib', 'lzma']))
        b = io.BytesIO()
        Surface(z, .5, .5).save(b, format='.sflz', dtype='<f8', compression=kind)
        data, suffix = b.getvalue(), '.sflz'
        start = data.index(b'topography') + 10 + 4 + 4 + 1 + 3 + 4      # an offset within the layer header errs on the safe side
        spans, tol = [(start, len(data))], 1e-12
        what = kind
    else:
        while True:
            e = encode.ENCODERS[name](rng)
            if len(e.data) < 60000 and (name != 'sur' or e.what['code'] == 'DSCOMPRESSED'):
                break
        data, suffix, z, tol, what = e.data, e.suffix, e.z, e.rtol, e.what
        if name == 'sur':
            pos = 512 + sum(struct.unpack_from('<2h', data, 334))
            n, = struct.unpack_from('<I', data, pos)
            start = pos + 4 + 8 * n
            spans = [(start, start + sum(struct.unpack_from(f'<{2 * n}I', data, pos + 4)[1::2]))]
        else:
            spans = []
            with zipfile.ZipFile(io.BytesIO(data)) as a:
                for i in a.infolist():
                    if i.compress_size and not i.filename.endswith('.hex'):
                        k = i.header_offset + 30 + sum(struct.unpack_from('<2H', data, i.header_offset + 26))
                        spans.append((k, k + i.compress_size))
    case.event('checksum')
    case.note(name=name, what=what, n=len(data))
    for _ in range(6):
        a, b = spans[rng.integers(len(spans))]
        d = bytearray(data)
        for _ in range(int(rng.choice([1, 1, 1, 3]))):
            d[int(rng.integers(a, b))] ^= 1 << int(rng.integers(8))
        if bytes(d) == data:
            continue
        s = run(case, rng, bytes(d), suffix, f'{name} with damaged data that have a checksum')
        if s is None:
            continue
        case.check(s.data.shape == z.shape, f'{name} with damaged data that have a checksum: size', got=s.data.shape)
        ok = ~np.isnan(z)
        got = np.asarray(s.data, float)
        case.check(not np.isnan(got[ok]).any() and np.isnan(got[~ok]).all(), f'{name} with damaged data that have a checksum: missing points')
        if ok.any():
            case.close(f'{name} with damaged data that have a checksum: loads with other heights', got[ok], z[ok], rtol=0,
                       atol=(tol + 1e-12) * np.abs(z[ok]).max())


def hostile(case):
    """Contents that claim more than they hold, aimed at the loops and allocations of the readers."""
    rng = case.rng
    k = case.idx % 8
    case.note(kind=int(k), idx=case.idx)
    case.event('hostile')
    big = int(rng.choice([2 ** 31 - 1, 2 ** 32 - 1, 10 ** 8]))
    if k == 0:      # gwy: array of strings / objects without end
        t = [b'S', b'O', b'D', b'I', b'C'][rng.integers(5)]
        body = b'name\0' + t + struct.pack('<I', big) + (b'a\0' * int(rng.integers(0, 5)))
        data, suf = b'GWYPGwyContainer\0' + struct.pack('<I', int(rng.choice([len(body), big]))) + body, '.gwy'
    elif k == 1:    # gwy: string without terminator
        data, suf = b'GWYP' + b'a' * int(rng.integers(0, 20000)), '.gwy'
    elif k == 2:    # fits: header without end
        data, suf = b'SIMPLE  =                    T'.ljust(80) + b'A       = 1'.ljust(80) * int(rng.integers(0, 200)), '.fits'
    elif k == 3:    # sur: many directories, huge comments
        e = encode.sur(rng)
        a = bytearray(e.data)
        struct.pack_into('<h', a, 334, int(rng.choice([-1, 32767])))
        if e.what['code'] == 'DSCOMPRESSED':
            struct.pack_into('<I', a, 512, big)
        data, suf = bytes(a), '.sur'
    elif k == 4:    # sizes beyond the content
        name = ['plu', 'os3d', 'zmg', 'nms', 'tmd', 'dat', 'sdf', 'al3d'][rng.integers(8)]
        e = encode.ENCODERS[name](rng)
        off, f = dict(plu=(388, '<II'), os3d=(0, None), zmg=(85, '<II'), nms=(1368, '<II'), tmd=(56, '<II'), dat=(68, '>HH'), sdf=(42, '<HH'),
                      al3d=(0, None))[name]
        a = bytearray(e.data)
        if f:
            lim = 65535 if 'H' in f else big
            struct.pack_into(f, a, off, int(rng.choice([lim, 65535, 46341])), int(rng.choice([lim, 65535, 46341])))
        elif name == 'al3d':
            a = bytearray(re.sub(rb'Cols\0{16}\d+\0', b'Cols' + b'\0' * 16 + b'9' * int(rng.integers(2, 12)) + b'\0', bytes(a)))
        else:
            i = 10 + 8
            struct.pack_into('<i', a, i, int(rng.choice([big & 0x7fffffff, -1, 10 ** 6])))
        data, suf = bytes(a), e.suffix
    elif k == 5:    # opd: directory with many entries
        e = encode.opd(rng)
        a = bytearray(e.data)
        struct.pack_into('<l', a, 20, int(rng.choice([2 ** 31 - 1, -1, 24, 0])))
        data, suf = bytes(a), '.opd'
    elif k == 6:    # sflz: sizes of the layers
        s = Surface(rng.normal(size=(3, 4)), 1, 1)
        b = io.BytesIO()
        s.save(b, format='.sflz', compression=str(rng.choice(['none', 'zlib', 'lzma'])))
        a = bytearray(b.getvalue())
        pos = int(rng.integers(4, min(len(a) - 4, 90)))
        struct.pack_into('<I', a, pos, big)
        data, suf = bytes(a), '.sflz'
    else:           # compressed content that expands
        import zlib
        n = 40_000_000
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED) as z:
            z.writestr('index.xml', b'<xml>' + b' ' * n + b'</xml>')
            z.writestr('LAYER_0.raw', b'\0' * 16)
        data, suf = bio.getvalue(), '.plux'
        if case.idx % 16 != 7:
            data = data[:len(data) // 2]
    run(case, rng, data, suf, f'hostile content {k} for {suf}', kind=int(k))


STAGES = [Stage('truncate', truncate, 1800, 30000, timeout=90, hang_violates=True),
          Stage('damage', damage, 2700, 60000, timeout=90, hang_violates=True),
          Stage('checksums', checksums, 400, 8000, timeout=90, hang_violates=True),
          Stage('hostile', hostile, 240, 3000, timeout=30, hang_violates=True)]
