"""C29: content that is not one supported height map is refused."""
import hashlib
import io
import os
import re
import struct
import zipfile
import numpy as np
from surfalize import Surface
from surfalize.file import supported_formats_read
from rt import encode
from rt.core import Stage

ID = 'C29'
RULE = ('Well-formed files of all formats are generated, loaded, and then changed so that they declare other content (profiles, '
        'series, several layers, volumes, other data types, no height channel) or contradict themselves (missing members and '
        'blocks, sizes of buffers, signatures, checksums); each changed file is loaded from path and buffer, with and without '
        'image layers.')
ASSUMPTIONS = ['Any Python exception is a refusal.', 'Only declarations whose meaning the library knows are changed.']


def rezip(data, edit):
    """The archive with its members edited; edit(name, bytes) -> bytes, None to drop."""
    bio, out = io.BytesIO(data), io.BytesIO()
    with zipfile.ZipFile(bio) as a, zipfile.ZipFile(out, 'w') as b:
        for n in a.namelist():
            r = edit(n, a.read(n))
            if r is not None:
                b.writestr(n, r)
    return out.getvalue()


def at(data, off, fmt, *v):
    b = bytearray(data)
    struct.pack_into(fmt, b, off, *v)
    return bytes(b)


def v_sur(rng, e):
    b = e.data
    kind = struct.unpack_from('<h', b, 18)[0]
    yield 'several objects', at(b, 14, '<h', int(rng.integers(2, 9)))
    yield 'version', at(b, 16, '<h', int(rng.choice([0, 2, 3])))
    yield 'signature', b'DIGITAL SURG' + b[12:]
    if kind != 1:
        for k in rng.permutation([1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 99])[:5]:
            yield f'kind {k}', at(b, 18, '<h', int(k))
    for obj, op in ((b'SCRATCH', b'someone'), (b'', b'csm'), (b'scratch', b'csm'), (b'PROFILE 1', b'')):
        yield f'profile {obj}/{op}', at(b, 18, '<h30s30s', 1, obj.ljust(30), op.ljust(30))
    yield 'unknown kind', at(b, 18, '<h', int(rng.choice([0, 21, 500])))
    if b.startswith(b'DSCOMPRESSED'):
        off = 512 + sum(struct.unpack_from('<hh', b, 334))
        n = struct.unpack_from('<I', b, off)[0]
        k = int(rng.integers(n))
        raw, z = struct.unpack_from('<2I', b, off + 4 + 8 * k)
        yield 'size of compressed data', at(b, off + 4 + 8 * k + 4, '<I', z + int(rng.choice([1, 5])))
        yield 'size of decompressed data', at(b, off + 4 + 8 * k, '<I', raw + int(rng.choice([2, 8])))


def v_x3p(rng, e):
    b = e.data

    def xml(f, member='main.xml'):
        state = {}

        def edit(n, d):
            if n == 'main.xml':
                d = f(d)
                state['md5'] = hashlib.md5(d).hexdigest()
            return d
        once = rezip(b, edit)
        return rezip(once, lambda n, d: state['md5'].encode() + b' *main.xml\n' if n == 'md5checksum.hex' else d)
    for t in ('PRF', 'PCL'):
        yield f'feature type {t}', xml(lambda d: d.replace(b'>SUR<', f'>{t}<'.encode()))
    k = int(rng.integers(2, 6))
    yield f'{k} layers', xml(lambda d: d.replace(b'<SizeZ>1<', f'<SizeZ>{k}<'.encode()))
    layered = xml(lambda d: d.replace(b'<SizeZ>1<', f'<SizeZ>{k}<'.encode()))
    yield f'{k} layers with their heights', rezip(layered, lambda n, d: d * k if n.endswith('.bin') else d)
    yield 'data type', xml(lambda d: re.sub(rb'(<CZ>.*?<DataType>)\w', rb'\1Q', d))
    yield 'no Record1', xml(lambda d: d.replace(b'Record1>', b'Record7>'))
    yield 'no Record3', xml(lambda d: d.replace(b'Record3>', b'Record8>'))
    yield 'no link to the data', xml(lambda d: re.sub(rb'<PointDataLink>[^<]*</PointDataLink>', b'', d))
    yield 'empty link to the data', xml(lambda d: re.sub(rb'<PointDataLink>[^<]*<', b'<PointDataLink><', d))
    yield 'link to a missing member', xml(lambda d: re.sub(rb'<PointDataLink>[^<]*<', b'<PointDataLink>other.bin<', d))
    yield 'size', xml(lambda d: re.sub(rb'<SizeX>(\d+)<', lambda m: b'<SizeX>%d<' % (int(m[1]) + 1), d))
    yield 'no main.xml', rezip(b, lambda n, d: None if n == 'main.xml' else d)
    yield 'no checksum', rezip(b, lambda n, d: None if n == 'md5checksum.hex' else d)
    yield 'no data', rezip(b, lambda n, d: None if n.endswith('.bin') else d)
    yield 'checksum', rezip(b, lambda n, d: d + b' ' if n == 'main.xml' else d)
    def digit(d):
        i = int(rng.integers(32))
        return d[:i] + (b'0' if d[i:i + 1] != b'0' else b'1') + d[i + 1:]
    yield 'one digit of the checksum', rezip(b, lambda n, d: digit(d) if n == 'md5checksum.hex' else d)
    yield 'part of the checksum', rezip(b, lambda n, d: d[:int(rng.integers(1, 32))] if n == 'md5checksum.hex' else d)
    yield 'checksum of another document', rezip(b, lambda n, d: hashlib.md5(b'x').hexdigest().encode() if n == 'md5checksum.hex' else d)


def v_fits(rng, e):
    b = e.data
    i = b.find(b"EXTNAME = 'HEIGHTS'")
    h = b.rfind(b'XTENSION', 0, i)
    assert i > h > 0
    j = b.find(b'NAXIS   =', h)
    assert j < i
    for n in (1, 3):
        yield f'{n} axes', b[:j] + (b'NAXIS   = ' + str(n).rjust(20).encode()) + b[j + 30:]
    yield 'no heights', b[:i] + b"EXTNAME = 'HEIGHTZ'" + b[i + 19:]
    yield 'signature', b'SIMPEL' + b[6:]
    k = b.find(b'BITPIX  =', h)
    yield 'data type', b[:k] + b'BITPIX  = ' + str(int(rng.choice([24, -16, 0]))).rjust(20).encode() + b[k + 30:]


def v_gwy(rng, e):
    z = np.ones((3, 4))
    bad = str(rng.choice(['V', 'A', '', 's', 'N', '%']))
    f = encode.gfield(rng, z, 1e-6, 1e-6, 'm', bad or None)
    comps = [encode.gc('/0/data', 'o', f), encode.gc('/0/data/title', 's', str(rng.choice(['Voltage', 'Phase', 'Current'])))]
    yield f'only a channel in {bad!r}', b'GWYP' + encode.gobj('GwyContainer', comps)
    yield 'no channel', b'GWYP' + encode.gobj('GwyContainer', [encode.gc('filename', 's', 'x.gwy')])
    yield 'signature', b'GWYQ' + e.data[4:]
    b = e.data.replace(b'xres\0i', b'xrez\0i')
    yield 'no size', b


def v_sdf(rng, e):
    b = e.data
    yield 'signature', bytes([b[0]]) + b'ISO-9.0' + b[8:]
    yield 'kind of file', b'c' + b[1:]
    if e.what['ascii']:
        t = int(rng.choice([0, 8, 9, 42]))
        yield f'data type {t}', re.sub(rb'DataType( *)=( *)\d', lambda m: b'DataType' + m[1] + b'=' + m[2] + str(t).encode(), b)
        yield 'unknown field', b.replace(b'NumProfiles', b'NumProfilez')
        yield 'number of points', re.sub(rb'NumPoints( *)=( *)(\d+)', lambda m: b'NumPoints' + m[1] + b'=' + m[2] + str(int(m[3]) + 1).encode(), b)
    else:
        t = int(rng.choice([8, 9, 42, 255]))
        yield f'data type {t}', at(b, 8 + 10 + 24 + 4 + 32 + 1, 'B', t)
        if not b.endswith(b'</a>'):
            nx, ny = struct.unpack_from('<HH', b, 42)
            yield 'number of points', at(b, 42, '<H', nx + 1)


def v_tmd(rng, e):
    b = e.data
    yield 'signature', b.replace(b'v2.0', b'v3.0', 1)
    nx, ny = struct.unpack_from('<II', b, b.index(b'comment') + 24)
    o = b.index(b'comment') + 24
    yield 'more columns', at(b, o, '<I', nx + 1)
    yield 'fewer rows than stored', b[:o] + struct.pack('<II', nx, ny + 1) + b[o + 8:]


def v_dat(rng, e):
    b = e.data
    yield 'signature', b'\x88\x1b\x03r' + b[4:]
    f, size = struct.unpack_from('>HI', b, 4)
    yield 'format number', at(b, 4, '>H', f % 3 + 1)
    yield 'header size', at(b, 6, '>I', 4096 if size == 834 else 834)
    w, h, n, _, nb = struct.unpack_from('>HHHhI', b, 52)
    if nb:
        yield 'intensity size', at(b, 60, '>I', nb + int(rng.choice([-2, 2, 2])))
        yield 'intensity width', at(b, 52, '>H', w + 1)
    yield 'phase resolution', at(b, 218, '>h', int(rng.choice([7, -1, 100])))


def v_opd(rng, e):
    b = e.data
    yield 'signature', b[:2] + b'Directorz' + b[11:]
    yield 'no heights', b.replace(b'RAW_DATA', b'RAW_DATZ')
    i = b.find(b'RAW_DATA')
    size = struct.unpack_from('<l', b, i + 18)[0]
    yield 'size of the heights', at(b, i + 18, '<l', size + int(rng.choice([-2, -1, 4])))
    yield 'block type', at(b, i + 16, '<h', int(rng.choice([77, -5])))


def v_al3d(rng, e):
    b = e.data
    yield 'signature', b.replace(b'Alicona', b'Alicone', 1)
    yield 'no version', b.replace(b'Version\0', b'Verzion\0', 1)
    yield 'no tag count', b.replace(b'TagCount', b'TagCound', 1)
    for k in (b'Cols', b'Rows', b'PixelSizeXMeter', b'PixelSizeYMeter', b'DepthImageOffset'):
        yield f'no {k.decode()}', b.replace(k, b'x' * len(k), 1)
    n = int(rng.integers(2, 8))
    yield 'delimiter', at(b, 17 + 52 * n + 50, '2s', b'\n\n')


def v_vk4(rng, e, wrap=lambda d: d, data=None):
    b = e.data if data is None else data
    off = struct.unpack_from('<I', b, b_height_offset())[0]
    w, h, bits, comp, size = struct.unpack_from('<5I', b, off)
    yield 'size of the heights', wrap(at(b, off + 16, '<I', size + int(rng.choice([-1, 1, 4, size]))))
    yield 'more columns', wrap(at(b, off, '<I', w + 1))
    yield 'bit depth', wrap(at(b, off + 8, '<2I', int(rng.choice([8, 24, 64])), comp))


def b_height_offset():
    return 12 + 4 * 6      # signature, meas_conds, color_peak, color_light, light, two reserved, height


def v_plux(rng, e):
    b = e.data
    yield 'no heights', rezip(b, lambda n, d: None if n == 'LAYER_0.raw' else d)
    yield 'no description', rezip(b, lambda n, d: None if n == 'index.xml' else d)
    for k in (b'IMAGE_SIZE_X', b'IMAGE_SIZE_Y', b'FOV_X', b'FOV_Y'):
        yield f'no {k.decode()}', rezip(b, lambda n, d: d.replace(k + b'>', k + b'Z>') if n == 'index.xml' else d)
    yield 'size', rezip(b, lambda n, d: re.sub(rb'<IMAGE_SIZE_X>(\d+)<', lambda m: b'<IMAGE_SIZE_X>%d<' % (int(m[1]) + 1), d)
                        if n == 'index.xml' else d)


def v_xyz(rng, e):
    yield 'binary', bytes(rng.integers(128, 256, 400, dtype=np.uint8)) + e.data
    lines = [l for l in e.data.splitlines(True) if not l.startswith(b'#')]
    k = int(rng.integers(len(lines)))
    yield 'a point is missing', b''.join(lines[:k] + lines[k + 1:])
    yield 'a point is not on the grid', b''.join(lines[:k] + [b'1.2345e-3 5.4321e-3 0.0\n'] + lines[k + 1:])
    if len(lines) > 1:
        i = int(rng.integers(len(lines) - 1))
        i += i >= k
        rest = lines[i].split()
        yield 'a point twice and one missing', b''.join(lines[:k] + [rest[0] + b' ' + rest[1] + b' 1.5e-6\n'] + lines[k + 1:])
        yield 'a point twice', b''.join(lines + [lines[k]])
    yield 'two columns', b''.join(b' '.join(l.split()[:2]) + b'\n' for l in lines)
    yield 'text', b''.join(lines[:k] + [b'a b c\n'] + lines[k + 1:])


def v_os3d(rng, e):
    yield 'signature', b'OmniSurf4D' + e.data[10:]


def v_zmg(rng, e):
    yield 'signature', b'Zeta-instruments' + e.data[16:]


VARIANTS = dict(sur=v_sur, x3p=v_x3p, fits=v_fits, gwy=v_gwy, sdf=v_sdf, tmd=v_tmd, dat=v_dat, opd=v_opd, al3d=v_al3d, vk4=v_vk4,
                plux=v_plux, xyz=v_xyz, os3d=v_os3d, zmg=v_zmg)
FMTS = list(VARIANTS)
REQUIRED = {f'event:{f}': 20 for f in FMTS}
REQUIRED['refusals'] = 3000


def load(case, e, data, path, layers, tag):
    if path:
        p = os.path.join(case.tmp, tag + e.suffix)
        with open(p, 'wb') as fh:
            fh.write(data)
        return Surface.load(p, read_image_layers=layers)
    return Surface.load(io.BytesIO(data), format=e.suffix, read_image_layers=layers)


def refuse(case):
    rng = case.rng
    f = FMTS[case.idx % len(FMTS)]
    e = encode.ENCODERS[f](rng)
    case.note(fmt=f, what=e.what, shape=list(e.z.shape) if e.z is not None else None, z0=repr(np.asarray(e.z).flat[0]))
    s = load(case, e, e.data, True, True, 'good')
    case.check(s.data.shape == e.z.shape, 'the unchanged file has another size')
    for k, (what, data) in enumerate(VARIANTS[f](rng, e)):
        if data == e.data:
            case.count('variant without change')
            continue
        case.event(f, what)
        for path in (True, False):
            for layers in (False, True):
                case.count('refusals')
                case.raises(f'{f}: {what}', Exception, lambda: load(case, e, data, path, layers, f'v{k}'), path=path, layers=layers)


STAGES = [Stage('refuse', refuse, 1400, 42000)]
