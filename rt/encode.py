"""Encoders for the readable file formats, written from the description of the formats (not using the code under test).

Each encoder returns an Enc: file content plus what it encodes (heights in µm, steps in µm, image layers).
"""
import hashlib
import io
import lzma
import struct
import zipfile
import zlib
from dataclasses import dataclass, field

import numpy as np

UM = {'m': 1e6, 'dm': 1e5, 'cm': 1e4, 'mm': 1e3, 'um': 1.0, 'µm': 1.0, 'μm': 1.0, 'nm': 1e-3, 'pm': 1e-6}


@dataclass
class Enc:
    suffix: str
    data: bytes
    z: np.ndarray
    sx: float
    sy: float
    rtol: float = 1e-12                  # heights: relative to the largest height
    rstep: float = 1e-12
    layers: dict = field(default_factory=dict)
    meta: dict = field(default_factory=dict)
    what: dict = field(default_factory=dict)
    encodings: tuple = ('auto', 'utf-8')
    magic: bool = True
    sized: bool = True                   # the file states the number of points: truncations have to be refused


def f32(x):
    return float(np.float32(x))


def dims(rng, lo=1, hi=16):
    r = rng.random()
    if r > .985 and hi == 16:
        return int(rng.integers(60, 400)), int(rng.integers(60, 400))
    if r < .1:
        n = int(rng.integers(lo, hi))
        return n, n
    if r < .16:
        return int(rng.integers(lo, 3)), int(rng.integers(lo, 40))
    if r < .22:
        return int(rng.integers(lo, 40)), int(rng.integers(lo, 3))
    return int(rng.integers(lo, hi)), int(rng.integers(lo, hi))


def mask(rng, ny, nx, p=.4):
    m = np.zeros((ny, nx), bool)
    if rng.random() < p and ny * nx > 1:
        m |= rng.random((ny, nx)) < rng.uniform(.05, .5)
        m.flat[rng.integers(m.size)] = True
        m.flat[rng.integers(m.size)] = False
    return m


def floats(rng, ny, nx, dtype='f4'):
    z = rng.normal(size=(ny, nx)) * float(rng.choice([1e-3, 1, 50])) + float(rng.choice([0, 0, -3, 200]))
    return z.astype(dtype)


def ints(rng, ny, nx, lo, hi):
    z = rng.integers(lo, hi, size=(ny, nx), endpoint=True)
    if z.size > 2 and rng.random() < .4:
        z.flat[rng.integers(z.size)] = lo
        z.flat[rng.integers(z.size)] = hi
    return z


def step(rng):
    return float(rng.choice([0.1, 0.5, 1.0, 0.37, 2.25, 0.0123]))


def rgb(rng, ny, nx):
    a = rng.integers(0, 256, size=(ny, nx, 3), dtype=np.uint8)
    r = rng.random()
    if r < .35:
        a[:, :, 1] = a[:, :, 2] = a[:, :, 0]
    elif r < .6:    # two channels agree
        i, j = ((0, 1), (0, 2), (1, 2))[rng.integers(3)]
        a[:, :, j] = a[:, :, i]
    return a


def is_gray(a):
    return bool(np.all(a[:, :, 0] == a[:, :, 1]) and np.all(a[:, :, 0] == a[:, :, 2]))


def put(buf, off, fmt, *v):
    struct.pack_into(fmt, buf, off, *v)


# ---------------------------------------------------------------------------------------------------------------- plu
def plu(rng):
    ny, nx = dims(rng)
    z, m = floats(rng, ny, nx), mask(rng, ny, nx)
    sx, sy = step(rng), step(rng)
    raw = np.where(m, np.float32(1000001), z).astype('<f4')
    img = rgb(rng, ny, nx)
    date = rng.choice(['Wed Nov 15 12:30:09 2017', '2021-03-04 05:06:07'])
    b = str(date).encode().ljust(128, b'\0')
    comment = rng.choice([b'comment', b'\xb5m \xe4', b''])
    b += bytes(comment).ljust(260, b'\0')
    b += struct.pack('<3I7f', ny, nx, 0, 1.0, sx, sy, 0.5, 0.25, 1.0, 3.0)
    b += struct.pack('<10Id f I I 5b 3x I', *range(10), 0.1, 5.0, 7, 8, 1, 2, 3, 4, 5, 9)
    b += raw.tobytes()
    b += bytes(rng.integers(0, 256, 16, dtype=np.uint8)) + img.tobytes()
    if rng.random() < .3:
        b += bytes(rng.integers(0, 256, 37, dtype=np.uint8))
    layers = {'Grayscale': img[:, :, 0]} if is_gray(img) else {'RGB': img}
    return Enc('.plu', b, np.where(m, np.nan, z.astype(float)), f32(sx), f32(sy), 0, layers=layers, magic=False,
               meta={'timestamp': str(date)})


# --------------------------------------------------------------------------------------------------------------- plux
def plux(rng):
    ny, nx = dims(rng)
    z, m = floats(rng, ny, nx), mask(rng, ny, nx)
    z[m] = np.nan
    sx, sy = step(rng), step(rng)
    img = rgb(rng, ny, nx)
    info = ''.join(f'<ITEM_{i}><NAME>{n}</NAME><VALUE>{v}</VALUE></ITEM_{i}>'
                   for i, (n, v) in enumerate([('Device', 'S neox'), ('Objective', '50x µ'), ('Other', 'no')]))
    xml = (f'<?xml version="1.0" encoding="utf-8"?><xml><GENERAL><DATE>Wed Jun  3 10:11:12 2020</DATE>'
           f'<IMAGE_SIZE_X>{nx}</IMAGE_SIZE_X><IMAGE_SIZE_Y>{ny}</IMAGE_SIZE_Y><FOV_X>{sx!r}</FOV_X><FOV_Y>{sy!r}</FOV_Y>'
           f'</GENERAL>' + (f'<INFO>{info}</INFO>' if rng.random() < .7 else '') + '</xml>')
    layers = {}
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED if rng.random() < .5 else zipfile.ZIP_STORED) as a:
        a.writestr('index.xml', xml.encode('utf-8'))
        a.writestr('LAYER_0.raw', z.astype('<f4').tobytes())
        if rng.random() < .7:
            a.writestr('LAYER_0.stack.raw', img.tobytes())
            layers = {'Grayscale': img[:, :, 0]} if is_gray(img) else {'RGB': img}
        if rng.random() < .3:
            a.writestr('recipe.txt', b'x')
    return Enc('.plux', bio.getvalue(), z.astype(float), sx, sy, 0, layers=layers, magic=False)


# --------------------------------------------------------------------------------------------------------------- fits
def card(key, value, comment=''):
    if isinstance(value, str):
        v = f"'{value}'".ljust(20)
    elif isinstance(value, bool):
        v = ('T' if value else 'F').rjust(20)
    else:
        v = repr(value).rjust(20)
    k = key.ljust(8) if len(key) <= 8 else f'HIERARCH {key} '
    line = f'{k}= {v}' + (f' / {comment}' if comment else '')
    assert len(line) <= 80, line
    return line.ljust(80)


def block(cards):
    h = ''.join(cards) + 'END'.ljust(80)
    return h.ljust(-(-len(h) // 2880) * 2880).encode('latin1')


def hdu(rng, name, a, bitpix, extra=()):
    cards = [card('XTENSION', 'IMAGE'), card('BITPIX', bitpix, 'bits'), card('NAXIS', 2), card('NAXIS1', a.shape[1]),
             card('NAXIS2', a.shape[0]), card('PCOUNT', 0), card('GCOUNT', 1), card('EXTNAME', name)]
    cards += list(extra)
    if rng.random() < .3:
        cards.insert(3, 'COMMENT some = text'.ljust(80))
    if rng.random() < .3:
        cards += ['HISTORY levelled by someone / else'.ljust(80)]
    if rng.random() < .15:      # headers of one to three blocks
        cards += [card(f'EXT{i}', int(i)) for i in range(int(rng.integers(20, 90)))]
    raw = a.astype({8: 'u1', 16: '>i2', 32: '>i4', 64: '>i8', -32: '>f4', -64: '>f8'}[bitpix]).tobytes()
    return block(cards) + raw + b'\0' * (-len(raw) % 2880)


def fits(rng, ux=None, uy=None, uz=None, z_um=None, sx=None, sy=None):
    ny, nx = dims(rng)
    if z_um is None and rng.random() < .2:
        ny, nx = [(36, 10), (9, 40), (18, 20), (60, 48), (20, 36)][rng.integers(5)]     # data fills complete blocks
    units = ['m', 'mm', 'um', 'nm', 'µm'] if z_um is None else []
    ux = ux or str(rng.choice(units))
    uy = uy or (ux if rng.random() < .5 else str(rng.choice(units)))
    uz = uz or str(rng.choice(units))
    md, mh = float(rng.choice([1.0, 1e-3, 10.0])), float(rng.choice([1.0, 0.5, 1e-3]))
    if z_um is not None:
        ny, nx = z_um.shape
        md = mh = 1.0
    dx, dy = sx or step(rng), sy or step(rng)
    if sx is not None:
        dx, dy = sx / UM[ux], sy / UM[uy]
    bp = int(rng.choice([16, 32, -32, -64])) if z_um is None else -64
    if bp > 0:
        raw = ints(rng, ny, nx, -2 ** (bp - 1), 2 ** (bp - 1) - 1).astype(float)
    else:
        raw = floats(rng, ny, nx, 'f4' if bp == -32 else 'f8').astype(float)
    if z_um is not None:
        raw = z_um / UM[uz]
    m = mask(rng, ny, nx) if z_um is None else np.zeros((ny, nx), bool)
    cards = [card('SIMPLE', True, 'conforms'), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', True),
             card('UnitMultiplicatorDeltas', md), card('UnitMultiplicatorHeights', mh), card('UNITX', ux), card('UNITZ', uz),
             card('DELTAX', dx), card('DELTAY', dy)]
    if uy != ux or rng.random() < .5:
        cards.append(card('UNITY', uy))
    for i in range(int(rng.integers(0, 60))):
        cards.append(card(f'KEY{i}', int(i)))
    meta = {}
    if rng.random() < .3:
        cards.append(card('OPERATOR', "O''Neil / = x", 'a / comment = y'))
        meta['OPERATOR'] = "O'Neil / = x"
    if rng.random() < .3:
        cards += ['HISTORY levelled / filtered'.ljust(80), 'HISTORY a = b'.ljust(80), ' ' * 80]
    order = rng.permutation(len(cards) - 4) + 4
    cards = cards[:4] + [cards[i] for i in order]
    phys, extra, masked = raw, [], m
    if z_um is None and bp > 0:
        r = rng.random()
        if r < .25:         # unsigned integers and scaled ones
            bs, bz = [(1, 2 ** (bp - 1)), (1.0, 100.0), (0.25, -3.5), (2, 0)][rng.integers(4)]
            extra += [card('BSCALE', bs), card('BZERO', bz)]
            phys = raw * bs + bz
        if rng.random() < .25:
            # the first of these heights that does not occur marks points without a measurement
            blank = next(v for v in range(-2 ** (bp - 1), 2 ** (bp - 1)) if v not in raw) if raw.size < 2 ** 15 else None
            if blank is not None:
                extra.append(card('BLANK', blank))
                gone = mask(rng, ny, nx)
                raw, m = np.where(gone, blank, raw), m | gone
    exts = [('HEIGHTS', raw, bp, extra)]
    if masked.any() or rng.random() < .3:
        exts.append(('MASK', (~masked).astype(int), int(rng.choice([8, 16, 32])), []))
    layers = {}
    if rng.random() < .6:
        img = rng.integers(0, 256, size=(ny, nx))
        exts.append(('INTENSITY', img, int(rng.choice([8, 16, 32])), []))
        layers['Intensity'] = img
    if rng.random() < .3:
        q = rng.integers(0, 30000, size=(nx + 1, ny + 2))
        if rng.random() < .5:
            exts.append(('QUALITY', q, 16, []))
        else:
            q = q * 2
            exts.append(('QUALITY', q - 32768, 16, [card('BZERO', 32768), card('BSCALE', 1)]))
        layers['Quality'] = q
    exts = [exts[i] for i in rng.permutation(len(exts))]
    layers = {n.capitalize(): layers[n.capitalize()] for n, *_ in exts if n.capitalize() in layers}
    b = block(cards) + b''.join(hdu(rng, *e) for e in exts)
    z = np.where(m, np.nan, phys * mh * UM[uz])
    return Enc(str(rng.choice(['.fits', '.fit', '.fts'])), b, z, dx * md * UM[ux], dy * md * UM[uy], 1e-12, layers=layers,
               what=dict(bitpix=bp, units=[ux, uy, uz], extensions=[e[0] for e in exts], scaled=bool(extra)), meta=meta,
               encodings=('auto', 'latin1'))


# ---------------------------------------------------------------------------------------------------------------- gwy
def gstr(s):
    return s.encode('utf-8') + b'\0'


def gobj(name, comps):
    body = b''.join(comps)
    return gstr(name) + struct.pack('<I', len(body)) + body


def gc(name, t, v):
    if t == 'o':
        return gstr(name) + b'o' + v
    if t == 's':
        return gstr(name) + b's' + gstr(v)
    if t == 'D':
        a = np.asarray(v, '<f8').ravel()
        return gstr(name) + b'D' + struct.pack('<I', a.size) + a.tobytes()
    if t == 'I':
        a = np.asarray(v, '<i4').ravel()
        return gstr(name) + b'I' + struct.pack('<I', a.size) + a.tobytes()
    if t == 'S':
        return gstr(name) + b'S' + struct.pack('<I', len(v)) + b''.join(gstr(x) for x in v)
    if t == 'O':
        return gstr(name) + b'O' + struct.pack('<I', len(v)) + b''.join(v)
    return gstr(name) + t.encode() + struct.pack('<' + {'i': 'i', 'd': 'd', 'b': 'b', 'q': 'q'}[t], v)


def gfield(rng, a, xreal, yreal, uxy, uz):
    unit = lambda n, u: gc(n, 'o', gobj('GwySIUnit', [gc('unitstr', 's', u)]))
    comps = [gc('xres', 'i', a.shape[1]), gc('yres', 'i', a.shape[0]), gc('xreal', 'd', xreal), gc('yreal', 'd', yreal),
             gc('xoff', 'd', 0.5), unit('si_unit_xy', uxy)]
    if uz is not None:
        comps.append(unit('si_unit_z', uz))
    comps.append(gc('data', 'D', a))
    comps = [comps[i] for i in rng.permutation(len(comps))]
    return gobj('GwyDataField', comps)


def gwy(rng, uxy=None, uz=None, z_um=None, sx=None, sy=None):
    ny, nx = dims(rng) if z_um is None else z_um.shape
    uxy = uxy or str(rng.choice(['m', 'm', 'mm', 'um', 'nm']))
    uz = uz or str(rng.choice(['m', 'm', 'um', 'nm', 'pm']))
    z = floats(rng, ny, nx, 'f8') if z_um is None else z_um
    m = mask(rng, ny, nx) if z_um is None else np.zeros((ny, nx), bool)
    sx, sy = sx or step(rng), sy or step(rng)
    xr, yr = sx * nx / UM[uxy], sy * ny / UM[uxy]
    key = int(rng.choice([0, 1, 7, 12]))
    comps = [gc(f'/{key}/data', 'o', gfield(rng, z / UM[uz], xr, yr, uxy, uz)), gc(f'/{key}/data/title', 's', str(rng.choice(['Topography', 'Height', 'Z µm'])))]
    if m.any() or (z_um is None and rng.random() < .2):
        comps.append(gc(f'/{key}/mask', 'o', gfield(rng, m.astype(float), xr, yr, uxy, '')))
    if rng.random() < .5:
        comps.append(gc(f'/{key}/meta', 'o', gobj('GwyContainer', [gc('Operator', 's', 'someone'), gc('Note', 's', 'µ')])))
    layers = {}
    if rng.random() < .6:
        for i, title in enumerate(['Intensity', 'Laser µ'][:rng.integers(1, 3)]):
            img = rng.integers(0, 256, size=(ny, nx)).astype(float)
            k = [20, 3][i]
            comps += [gc(f'/{k}/data', 'o', gfield(rng, img, xr, yr, uxy, None)), gc(f'/{k}/data/title', 's', title)]
            layers[title] = img
    if rng.random() < .4:       # a second channel in another quantity
        comps += [gc('/30/data', 'o', gfield(rng, z * 0 + 5, xr, yr, uxy, 'V')), gc('/30/data/title', 's', 'Voltage')]
    decoy = rng.random() < .3
    if decoy:                   # a second length channel whose title does not say so
        comps = [c for c in comps if not c.startswith(f'/{key}/data/title'.encode())]
        comps += [gc(f'/{key}/data/title', 's', str(rng.choice(['Topography', 'my Height (fwd)'])))]
        comps += [gc('/31/data', 'o', gfield(rng, z * 0 + 7, xr, yr, uxy, 'm')), gc('/31/data/title', 's', 'Deflection')]
    elif rng.random() < .3 and key < 12:        # several height channels: the first one counts
        comps = [c for c in comps if not c.startswith(f'/{key}/data/title'.encode())]
        comps += [gc(f'/{key}/data/title', 's', str(rng.choice(['Topography', 'my Height (fwd)'])))]
        decoy = True
        far = int(rng.choice([10, 11, 100, 15])) if key > 1 else int(rng.choice([100, 15, 9]))
        titles = ['Topo height']
        if rng.random() < .4:       # no title tells the quantity: the first one counts as well
            comps = [c for c in comps if not c.startswith(f'/{key}/data/title'.encode())]
            comps += [gc(f'/{key}/data/title', 's', str(rng.choice(['Z µm', 'Channel A'])))]
            titles = ['Z other', 'Channel B']
        comps += [gc(f'/{far}/data', 'o', gfield(rng, z * 0 + 3, xr, yr, uxy, 'm')), gc(f'/{far}/data/title', 's', str(rng.choice(titles)))]
    if rng.random() < .3:       # images of another size do not belong to the heights
        other = rng.normal(size=[(ny + 1, nx), (ny, nx + 2), (ny + 2, nx + 1)][rng.integers(3)])
        comps += [gc('/40/data', 'o', gfield(rng, other, xr, yr, uxy, None)), gc('/40/data/title', 's', 'Other µ')]
    extra = [gc('/0/graph/lastid', 'i', 0), gc('filename', 's', '/tmp/µ.gwy'), gc('flag', 'b', 1), gc('big', 'q', 2 ** 40),
             gc('list', 'S', ['a', 'b']), gc('ids', 'I', [1, 2, 3]), gc('objs', 'O', [gobj('GwySIUnit', [gc('unitstr', 's', 'm')])] * 2)]
    extra = extra[1:]
    comps += [e for e in extra if rng.random() < .4]
    comps = [comps[i] for i in rng.permutation(len(comps))]
    b = b'GWYP' + gobj('GwyContainer', comps)
    return Enc('.gwy', b, np.where(m, np.nan, z), sx, sy, 1e-12, layers=layers, what=dict(units=[uxy, uz], decoy=decoy))


# ---------------------------------------------------------------------------------------------------------------- opd
def opd(rng):
    ny, nx = dims(rng)
    m = mask(rng, ny, nx)
    blocks = []
    mult = 1
    wl = float(rng.choice([632.8, 1.0, 550.5]))
    if rng.random() < .5:
        mult = int(rng.choice([1, 16, 1000]))
        blocks.append(('Mult', 6, struct.pack('<h', mult)))
        raw = ints(rng, ny, nx, -32768, 32766).astype('<i2')
        bad, val = np.int16(32767), raw.astype(float)
    else:
        raw = floats(rng, ny, nx).astype('<f4')
        bad, val = np.float32(1e38), raw.astype(float)
    file = np.where(m, bad, raw).astype(raw.dtype)
    col = np.stack([file[::-1, x] for x in range(nx)])                      # columns, from the last row to the first

    def arr(a):
        return struct.pack('<HHH', a.shape[0], a.shape[1], a.dtype.itemsize) + a.tobytes()
    blocks.append(('RAW_DATA', 3, arr(col)))
    blocks.append(('Wavelength', 7, struct.pack('<f', wl)))
    px, asp = step(rng) * 1e-3, float(rng.choice([1.0, 0.857, 1.25]))
    blocks.append(('Pixel_size', 7, struct.pack('<f', px)))
    if rng.random() < .7:
        blocks.append(('Aspect', 7, struct.pack('<f', asp)))
    else:
        asp = 1.0
    layers = {}
    if rng.random() < .6:
        img = rng.integers(0, 256, size=(ny, nx), dtype=np.uint8)
        blocks.append(('Image', 3, arr(np.stack([img[::-1, x] for x in range(nx)]))))
        layers['Grayscale'] = img
    meta = {}
    if rng.random() < .6:
        blocks += [('Date', 5, b'11/15/2017\0\0'), ('Time', 5, b'13:14:15\0')]
        meta['timestamp'] = '2017-11-15 13:14:15'
    if rng.random() < .5:
        blocks.append(('Title', 5, b'some title\0\0\0'))
        meta['Title'] = 'some title'
    if rng.random() < .3:
        blocks.append(('Mag', 8, struct.pack('<d', 20.3)))
        meta['Mag'] = 20.3
    if rng.random() < .3:
        blocks.append(('Count', 12, struct.pack('<i', -77777)))
        meta['Count'] = -77777
    if rng.random() < .3:
        blocks.append(('', 0, b''))
    if rng.random() < .3:
        blocks.append(('Note', 5, b'\0' * int(rng.integers(1, 4))))
    blocks = [blocks[i] for i in rng.permutation(len(blocks))]
    entry = lambda n, t, size: n.encode().ljust(16, b'\0') + struct.pack('<hlH', t, size, 0)
    b = b'\x01\x00' + entry('Directory', 1, 24 * (len(blocks) + 1)) + b''.join(entry(n, t, len(d)) for n, t, d in blocks)
    b += b''.join(d for _, _, d in blocks)
    sx = f32(px) * 1e3
    z = np.where(m, np.nan, val * (f32(wl) * 1e-3) / mult)
    return Enc('.opd', b, z, sx, sx * f32(asp), 1e-12, layers=layers, meta=meta, what=dict(dtype=str(raw.dtype), mult=mult))


# --------------------------------------------------------------------------------------------------------------- os3d
def os3d(rng):
    from PIL import Image
    ny, nx = dims(rng)
    z, m = floats(rng, ny, nx), mask(rng, ny, nx)
    sx, sy = step(rng), step(rng)
    name, date = str(rng.choice(['part', 'a longer identification', 'µ'])).encode(), b'2019-02-03 04:05:06'
    b = b'OmniSurf3D' + struct.pack('<ii', 1, 1) + struct.pack('<i', len(name)) + name + struct.pack('<i', len(date)) + date
    b += struct.pack('<iidddd', nx, ny, sx, sy, 1.5, -2.5) + np.where(m, np.float32(-3.4028235e38), z).astype('<f4').tobytes()
    layers = {}
    if rng.random() < .6:
        img = rng.integers(0, 256, size=(ny, nx, 4), dtype=np.uint8)
        s = io.BytesIO()
        Image.fromarray(img).save(s, format='PNG')
        b += b'\x01' + s.getvalue()
        layers['RGBA'] = img
    else:
        b += b'\x00'
    return Enc('.os3d', b, np.where(m, np.nan, z.astype(float)), sx, sy, 0, layers=layers,
               meta={'timestamp': '2019-02-03 04:05:06'})


# ----------------------------------------------------------------------------------------------------------------- vk
def vk4(rng, zip_=None):
    ny, nx = dims(rng)
    bits = int(rng.choice([16, 32]))
    raw = ints(rng, ny, nx, 0, 2 ** bits - 1).astype(f'<u{bits // 8}')
    px, py, pz = (int(rng.integers(1, 2_000_000)) for _ in range(3))
    if bits == 32:
        pz = int(rng.integers(1, 2000))
    when = (2018, 5, 6, 7, 8, 9)
    cond = bytearray(304)
    put(cond, 0, '<7I', 304, *when)
    put(cond, 72, '<I', 10)
    put(cond, 96, '<I', 500)
    put(cond, 168, '<3I', px, py, pz)

    def color(a):
        return struct.pack('<5I', nx, ny, 24, 0, a.size) + a[:, :, ::-1].tobytes()

    def height(a):
        return struct.pack('<7I', nx, ny, a.dtype.itemsize * 8, 0, a.nbytes, 0, 0) + bytes(768) + a.tobytes()
    c1, c2 = rgb(rng, ny, nx), rgb(rng, ny, nx)
    light = rng.integers(0, 65536, size=(ny, nx)).astype('<u2')
    title = str(rng.choice(['title', '', 'x' * 30]))
    strings = b''.join(struct.pack('<I', len(t)) + t.encode('utf-16-le') for t in (title, 'Plan Apo 50x'))
    parts = {'meas_conds': bytes(cond), 'color_peak': color(c1), 'color_light': color(c2), 'light': height(light),
             'height': height(raw), 'string_data': strings}
    pos = {'meas_conds': 12, 'color_peak': 16, 'color_light': 20, 'light': 24, 'height': 36, 'string_data': 76}
    table = bytearray(80 + 4 * int(rng.integers(0, 10)))
    put(table, 0, '4s', b'VK4_')
    body, off = b'', len(table)
    for k in rng.permutation(list(parts)):
        gap = bytes(int(rng.integers(0, 9)))
        put(table, pos[k], '<I', off + len(gap))
        body += gap + parts[k]
        off += len(gap) + len(parts[k])
    b = bytes(table) + body
    z = raw.astype(float) * pz * 1e-6
    layers = {'RGB': c1, 'Laser+RGB': c2, 'Laser': light}
    meta = {'timestamp': '2018-05-06 07:08:09', 'title': title, 'lens_name': 'Plan Apo 50x'}
    suffix = '.vk4'
    if zip_:
        bio = io.BytesIO()
        with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED) as a:
            a.writestr('Vk4File', b)
            if rng.random() < .4:
                a.writestr('Other', b'y')
        suffix = zip_
        b = suffix[1:].upper().encode() + bytes(rng.integers(0, 256, 20, dtype=np.uint8)) + bio.getvalue()
    return Enc(suffix, b, z, px * 1e-6, py * 1e-6, 1e-12, layers=layers, meta=meta, what=dict(bits=bits))


def vk6(rng):
    return vk4(rng, '.vk6')


def vk7(rng):
    return vk4(rng, '.vk7')


# ---------------------------------------------------------------------------------------------------------------- x3p
def x3p(rng):
    ny, nx = dims(rng)
    code = str(rng.choice(['I', 'L', 'F', 'D']))
    sx, sy = step(rng), step(rng)
    inc = 1.0
    if code in 'IL':
        b = {'I': 15, 'L': 31}[code]
        raw = ints(rng, ny, nx, -2 ** b, 2 ** b - 1).astype({'I': '<i2', 'L': '<i4'}[code])
        inc = float(rng.choice([1e-9, 2.5e-10]))
        z = raw.astype(float) * inc * 1e6
    else:
        z = floats(rng, ny, nx, 'f8')
        z[mask(rng, ny, nx)] = np.nan
        raw = (z * 1e-6).astype({'F': '<f4', 'D': '<f8'}[code])
        z = raw.astype(float) * 1e6
    path = str(rng.choice(['bindata/data.bin', 'data.bin']))
    xml = (f'<?xml version="1.0" encoding="UTF-8"?><p:ISO5436_2 xmlns:p="http://www.opengps.eu/2008/ISO5436_2"><Record1>'
           f'<Revision>ISO5436 - 2000</Revision><FeatureType>SUR</FeatureType><Axes>'
           f'<CX><AxisType>I</AxisType><DataType>D</DataType><Increment>{sx * 1e-6!r}</Increment><Offset>0</Offset></CX>'
           f'<CY><AxisType>I</AxisType><DataType>D</DataType><Increment>{sy * 1e-6!r}</Increment><Offset>0</Offset></CY>'
           f'<CZ><AxisType>A</AxisType><DataType>{code}</DataType><Increment>{inc!r}</Increment><Offset>0</Offset></CZ></Axes>'
           f'</Record1>')
    meta = {}
    if rng.random() < .7:
        calib = rng.random() < .4
        xml += '<Record2><Date>2017-03-04T05:06:07</Date><Creator>some µ one</Creator>' + \
            ('<CalibrationDate>2016-12-30T23:59:58</CalibrationDate>' if calib else '') + '</Record2>'
        meta = {'Creator': 'some µ one', 'Date': '2017-03-04 05:06:07', **({'CalibrationDate': '2016-12-30 23:59:58'} if calib else {})}
    xml += (f'<Record3><MatrixDimension><SizeX>{nx}</SizeX><SizeY>{ny}</SizeY><SizeZ>1</SizeZ></MatrixDimension>'
            f'<DataLink><PointDataLink>{path}</PointDataLink></DataLink></Record3></p:ISO5436_2>')
    xml = xml.encode('utf-8')
    if rng.random() < .2:
        xml = xml.replace(b'</Record3>', b'</Record3>' + b' ' * int(rng.choice([9000, 70000, 140000])))
    bio = io.BytesIO()
    with zipfile.ZipFile(bio, 'w', zipfile.ZIP_DEFLATED if rng.random() < .6 else zipfile.ZIP_STORED) as a:
        files = [('main.xml', xml), ('md5checksum.hex', hashlib.md5(xml).hexdigest().encode() + b' *main.xml\n'), (path, raw.tobytes())]
        for i in rng.permutation(3):
            a.writestr(*files[i])
    return Enc('.x3p', bio.getvalue(), z, sx, sy, 1e-6 if code == 'F' else 1e-12, meta=meta, what=dict(dtype=code))


# ---------------------------------------------------------------------------------------------------------------- xyz
def xyz(rng):
    ny, nx = dims(rng, 2)
    ny, nx = max(ny, 2), max(nx, 2)
    z = floats(rng, ny, nx, 'f8')
    z[mask(rng, ny, nx)] = np.nan
    sx, sy = step(rng), step(rng)
    x0, y0 = float(rng.choice([0, 3.5])), float(rng.choice([0, -2.0]))
    sep = str(rng.choice([' ', '\t', '   ']))
    # row by row or column by column, each with rising or falling coordinates
    order = [(j, i) for j in range(ny) for i in range(nx)] if rng.random() < .6 else [(j, i) for i in range(nx) for j in range(ny)]
    dx, dy = (1, 1) if rng.random() < .6 else (int(rng.choice([-1, 1])), int(rng.choice([-1, 1])))
    text = ''.join(sep.join([repr((x0 + dx * i * sx) * 1e-6), repr((y0 + dy * j * sy) * 1e-6), repr(float(z[j, i] * 1e-6))])
                   + str('\r\n' if nx % 2 else '\n') for j, i in order)
    if rng.random() < .3:
        text = '# comment\n' + text
    return Enc('.xyz', text.encode(), z, sx, sy, 1e-12, 1e-9, magic=False, sized=False)


# ---------------------------------------------------------------------------------------------------------------- zmg
def zmg(rng):
    ny, nx = dims(rng)
    raw = ints(rng, ny, nx, -32768, 32767).astype('<i2')
    sx, sy, sz = step(rng), step(rng), float(rng.choice([0.013, 1.0, 2e-3]))
    comment = bytes(rng.integers(0, 256, int(rng.integers(0, 60)), dtype=np.uint8))
    b = b'Zeta-Instruments'.ljust(85, b'\x01') + struct.pack('<II4xfff8xI84x', nx, ny, sx, sy, sz, len(comment)) + comment + raw.tobytes()
    if rng.random() < .5:
        b += b'trailer'
    return Enc('.zmg', b, raw.astype(float) * f32(sz), f32(sx), f32(sy), 2e-7)


# ---------------------------------------------------------------------------------------------------------------- nms
def nms(rng):
    ny, nx = dims(rng)
    raw = ints(rng, ny, nx, 0, 65534).astype('<u2')
    lo = float(rng.uniform(-5, 5))
    hi = lo + float(rng.uniform(.1, 90))
    sx, sy = step(rng), step(rng)
    b = bytearray(rng.integers(0, 256, 3468, dtype=np.uint8))
    put(b, 16, '<2d', lo, hi)
    put(b, 1076, '16s', b'2016-07-08 09:10')
    put(b, 1368, '<2I', nx, ny)
    put(b, 1376, '<2d', sx * 1e3, sy * 1e3)
    img = rng.integers(0, 256, size=(ny, nx), dtype=np.uint8)
    return Enc('.nms', bytes(b) + raw.tobytes() + img.tobytes(), lo + raw / 65534.0 * (hi - lo), sx, sy, 1e-12,
               layers={'Grayscale': img}, meta={'date': '2016-07-08 09:10:00'}, magic=False)


# ---------------------------------------------------------------------------------------------------------------- dat
def dat(rng):
    ny, nx = dims(rng)
    fmt = int(rng.choice([1, 2, 3]))
    size = {1: 834, 2: 834, 3: 4096}[fmt]
    m = mask(rng, ny, nx)
    raw = ints(rng, ny, nx, -2 ** 30, 2 ** 30) if rng.random() < .5 else ints(rng, ny, nx, -2147483648, 2147483639)
    bad = rng.choice([2147483640, 2147483647, 2147483641])
    sf, wl, ob, lat = float(rng.choice([0.5, 1.0])), float(rng.choice([632.8e-9, 1e-6])), float(rng.choice([1.0, 0.93])), step(rng) * 1e-6
    res = int(rng.choice([1, 2, 3]))
    has_int = rng.random() < .6
    nb = int(rng.choice([1, 1, 2, 3])) if has_int else 0
    ay, ax = (dims(rng) if rng.random() < .3 else (ny, nx)) if has_int else (0, 0)
    inten = rng.integers(0, 251, size=(ay, ax, nb)).astype('>u2')
    h = bytearray(size)
    put(h, 0, '4s', {1: b'\x88\x1b\x03o', 2: b'\x88\x1b\x03p', 3: b'\x88\x1b\x03q'}[fmt])
    put(h, 4, '>HI', fmt, size)
    put(h, 52, '>HHHhI', ax, ay, nb, 255, inten.nbytes)
    put(h, 68, '>HHI', nx, ny, nx * ny * 4)
    put(h, 80, '82s', b'comment')
    put(h, 164, '>f', sf)
    put(h, 168, '>f', wl)
    put(h, 176, '>f', ob)
    put(h, 184, '>f', lat)
    put(h, 218, '>h', res)
    b = bytes(h) + inten.tobytes() + np.where(m, bad, raw).astype('>i4').tobytes()
    k = {1: 4096, 2: 32768, 3: 131072}[res]
    z = np.where(m, np.nan, raw.astype(float) * f32(sf) * f32(wl) * f32(ob) / k * 1e6)
    layers = {}
    if has_int:
        layers = {'Intensity': inten[:, :, 0]} if nb == 1 else {f'Intensity_{i}': inten[:, :, i] for i in range(nb)}
    s = f32(lat) * 1e6
    return Enc('.dat', b, z, s, s, 1e-12, layers=layers, meta={'comment': 'comment'}, what=dict(format=fmt, buckets=nb, res=res))


# ---------------------------------------------------------------------------------------------------------------- sur
def sur_object(rng, raw, zs, bits, steps, units, missing, offset=0.0, kind=2, code=b'DIGITAL SURF', comment=b'', private=b'',
               name=b'', operator=b'', minp=None, enc='latin1', uz_axis=None):
    ny, nx = raw.shape
    h = bytearray(512)
    put(h, 0, '<12s4h', code, 0, 1, 1, kind)
    put(h, 20, '30s30s', name.ljust(30), operator.ljust(30))
    struct.pack_into('<h', h, 80, 0)                 # p_size
    struct.pack_into('<h', h, 82, 5)                 # acquisition type
    struct.pack_into('<h', h, 84, 0)                 # range type
    struct.pack_into('<h', h, 86, int(missing))
    struct.pack_into('<h', h, 88, 0)
    struct.pack_into('<f', h, 90, 0.0)
    struct.pack_into('<h', h, 98, bits)
    valid = raw if minp is None else raw[raw != minp - 2]
    struct.pack_into('<2i', h, 100, int(valid.min()) if minp is None else minp, int(valid.max()) if valid.size else 0)
    struct.pack_into('<3i', h, 108, nx, ny, nx * ny)
    struct.pack_into('<3f', h, 120, steps[0], steps[1], zs)
    u = [x.encode(enc)[:16].ljust(16) for x in units]
    uz = (uz_axis or units[2]).encode(enc)[:16].ljust(16)
    struct.pack_into('16s16s16s', h, 132, b'X'.ljust(16), b'Y'.ljust(16), b'Z'.ljust(16))
    struct.pack_into('16s16s16s', h, 180, *u)
    struct.pack_into('16s16s16s', h, 228, u[0], u[1], uz)
    struct.pack_into('<3f', h, 276, 1, 1, 1)
    data = np.ascontiguousarray(raw.astype({16: '<i2', 32: '<i4'}[bits])).tobytes()
    body = data
    if code == b'DSCOMPRESSED':
        n = int(rng.integers(1, 4))
        cuts = np.linspace(0, len(data), n + 1).astype(int)
        chunks = [data[a:b] for a, b in zip(cuts[:-1], cuts[1:])]
        level = int(rng.choice([0, 1, 6, 9]))
        z = [zlib.compress(c, level) for c in chunks]
        body = struct.pack('<I', n) + b''.join(struct.pack('<2I', len(c), len(q)) for c, q in zip(chunks, z)) + b''.join(z)
        struct.pack_into('<I', h, 324, len(body))
    struct.pack_into('<hh', h, 334, len(comment), len(private))
    struct.pack_into('<3f', h, 466, 0, 0, offset)
    return bytes(h) + comment + private + body


def sur(rng, units=None, z_um=None, sx=None, sy=None):
    ny, nx = dims(rng)
    bits = int(rng.choice([16, 32])) if z_um is None else 32
    lim = 2 ** (bits - 1)
    raw = ints(rng, ny, nx, -lim + 2, lim - 2)
    steps = (step(rng), step(rng))
    units = units or [str(rng.choice(['µm', 'um', 'mm', 'nm', 'm'])) for _ in range(3)]
    zs = float(rng.choice([1e-3, 2.5e-4, 1.0])) * (1e-4 if bits == 32 else 1.0)
    m = mask(rng, ny, nx)
    if z_um is not None:
        ny, nx = z_um.shape
        zs = float(np.abs(z_um).max() / UM[units[2]] / 2 ** 30) or 1.0
        zs = f32(zs)
        raw = np.round(z_um / UM[units[2]] / zs).astype(int)
        m = np.zeros((ny, nx), bool)
        steps = (sx / UM[units[0]], sy / UM[units[1]])
    minp = int(rng.integers(-lim + 2, -lim + 50)) if z_um is None else int(raw.min())
    flag = bool(m.any()) or (z_um is None and rng.random() < .3)
    raw = np.maximum(raw, minp)
    file = np.where(m, minp - 2, raw)
    offset = float(rng.choice([0, 0, 1.5, -300.25])) if z_um is None else 0.0
    code = b'DSCOMPRESSED' if rng.random() < .4 else b'DIGITAL SURF'
    comment = bytes(rng.integers(32, 256, int(rng.choice([0, 0, 7, 900])), dtype=np.uint8))
    private = bytes(rng.integers(0, 256, int(rng.choice([0, 0, 31])), dtype=np.uint8))
    enc = str(rng.choice(['utf-8', 'latin1']))
    # the unit of the axis (and offset) may differ from the one of the increments
    uz = str(rng.choice(['µm', 'mm', 'nm'])) if rng.random() < .4 else units[2]
    kind, kw, layers = 2, {}, {}
    r = rng.random()
    if r < .15:
        kind, kw = 1, dict(name=b'SCRATCH', operator=b'csm')
    elif r < .5:
        kind = 16
    else:
        kw = dict(name=str(rng.choice(['surface', 'Höhe', ''])).encode(enc))
    one = lambda a, k, first=False: sur_object(rng, a, zs if first else 1.0, bits if first else 16, steps, units, flag if first else False,
                                               offset if first else 0.0, k, code, comment if first else b'', private if first else b'',
                                               minp=minp if first else None, enc=enc, uz_axis=uz, **(kw if first else {}))
    b = one(file, kind, True)
    if kind == 16:
        c = rgb(rng, ny, nx)
        inten = rng.integers(0, 30000, size=(ny, nx))
        b += b''.join(one(c[:, :, i].astype(int), 12) for i in range(3)) + one(inten, 10)
        layers = {'Grayscale': c[:, :, 0]} if is_gray(c) else {'RGB': c}
        layers['Intensity'] = inten
    z = np.where(m, np.nan, raw * f32(zs) * UM[units[2]] + offset * UM[uz])
    return Enc('.sur', b, z, f32(steps[0]) * UM[units[0]], f32(steps[1]) * UM[units[1]], 1e-12, layers=layers,
               what=dict(bits=bits, kind=kind, code=code.decode(), units=units, axis=uz, missing=flag, enc=enc),
               encodings=('auto', enc), meta={'comment': repr(comment)})


# ---------------------------------------------------------------------------------------------------------------- sdf
def sdf(rng):
    ny, nx = dims(rng)
    sx, sy = step(rng), step(rng)
    ascii_ = rng.random() < .5
    m = mask(rng, ny, nx)
    t = int(rng.choice([5, 6, 7]))
    if t == 7:
        raw, zs = floats(rng, ny, nx, 'f8'), 1e-6
    else:
        b = {5: 15, 6: 31}[t]
        raw, zs = ints(rng, ny, nx, -2 ** b + 1, 2 ** b - 1), float(rng.choice([1e-9, 1e-10]))
    z = np.where(m, np.nan, raw.astype(float) * zs * 1e6)
    if ascii_:
        nl = str(rng.choice(['\n', '\r\n']))
        head = [('ManufacID', 'ABCDE'), ('CreateDate', '030420170506'), ('ModDate', '030420170507'), ('NumPoints', nx), ('NumProfiles', ny),
                ('Xscale', repr(sx * 1e-6)), ('Yscale', repr(sy * 1e-6)), ('Zscale', repr(zs)), ('Zresolution', -1),
                ('Compression', 0), ('DataType', t), ('CheckType', 0)]
        sp = str(rng.choice(['', ' ', '  ']))
        text = 'aISO-1.0' + nl + ''.join(f'{k}{sp}={sp}{v}{nl}' for k, v in head) + '*' + nl
        tok = ['BAD' if b else repr(v.item()) for v, b in zip(raw.ravel(), m.ravel())]
        per = int(rng.integers(1, 9))
        text += nl.join(' '.join(tok[i:i + per]) for i in range(0, len(tok), per)) + nl + '*' + nl
        text += f'< OperatorName > Tom Jones < / OperatorName >{nl}<Note>x y</Note>{nl}*' + str(rng.choice(['', nl]))
        return Enc('.sdf', text.encode('ascii'), z, sx, sy, 1e-12, meta={'OperatorName': 'Tom Jones', 'Note': 'x y'},
                   what=dict(ascii=True, type=t))
    bad = {5: -2 ** 15, 6: -2 ** 31}.get(t)
    file = np.where(m, np.nan if bad is None else bad, raw).astype({5: '<i2', 6: '<i4', 7: '<f8'}[t])
    if t == 7 and m.any():
        z = np.where(m, np.nan, z)
    b = b'bISO-1.0' + b'ABCDE     ' + b'030420170506030420170507' + struct.pack('<HH', nx, ny)
    b += struct.pack('<4d3B', sx * 1e-6, sy * 1e-6, zs, -1.0, 0, t, 0) + file.tobytes()
    if rng.random() < .3:
        b += b'\r\n<a>trailer</a>'
    return Enc('.sdf', b, z, sx, sy, 1e-12, what=dict(ascii=False, type=t), meta={'ManufacID': 'ABCDE'})


# --------------------------------------------------------------------------------------------------------------- al3d
def al3d(rng):
    ny, nx = dims(rng)
    z, m = floats(rng, ny, nx), mask(rng, ny, nx)
    raw = (z.astype(float) * 1e-6).astype('<f4')
    bad = str(rng.choice(['1e10', 'nan', '-1.0', '-9999.1', '3.4028235e+38', '1e30', '0.3']))
    file = np.where(m, np.float32(float(bad)), raw).astype('<f4')
    sx, sy = step(rng), step(rng)
    tags = [('Cols', nx), ('Rows', ny), ('PixelSizeXMeter', repr(sx * 1e-6)), ('PixelSizeYMeter', repr(sy * 1e-6)),
            ('InvalidPixelValue', bad), ('IconOffset', 0), ('TextureImageOffset', 0), ('NumberOfPlanes', 0), ('DepthImageOffset', None)]
    for i in range(int(rng.integers(0, 5))):
        tags.append((f'Extra{i}', 'µ' * i))
    tags = [tags[i] for i in rng.permutation(len(tags))]
    off = 17 + 52 * (len(tags) + 2) + int(rng.integers(0, 300))
    tag = lambda k, v: k.encode().ljust(20, b'\0') + str(v).encode('utf-8').ljust(30, b'\0') + b'\r\n'
    b = b'AliconaImaging\x00\r\n' + tag('Version', 1) + tag('TagCount', len(tags))
    b += b''.join(tag(k, off if k == 'DepthImageOffset' else v) for k, v in tags)
    b = b.ljust(off, b'\x07') + file.tobytes()
    return Enc('.al3d', b, np.where(m, np.nan, raw.astype(float) * 1e6), sx, sy, 1.3e-7, what=dict(invalid=bad))


# ---------------------------------------------------------------------------------------------------------------- tmd
def tmd(rng):
    ny, nx = dims(rng)
    z = floats(rng, ny, nx)
    lx, ly = step(rng) * nx, step(rng) * ny
    b = b'Binary TrueMap Data File v2.0\r\n\0' + b'comment'.ljust(21) + b'\r\n\0'
    b += struct.pack('<IIffff', nx, ny, lx, ly, 0, 0) + z.astype('<f4').tobytes()
    return Enc('.tmd', b, z.astype(float), f32(lx) / nx, f32(ly) / ny, 0)


# --------------------------------------------------------------------------------------------------------------- sflz
def sflz(rng):
    ny, nx = dims(rng)
    sx, sy = step(rng), step(rng)
    code = int(rng.integers(3))
    pack = (lambda b: b, zlib.compress, lzma.compress)[code]
    lo = hi = 0.0
    scaled = bool(rng.random() < .5)
    if scaled:
        dt = str(rng.choice(['<u4', '<u2', '|u1', '<i4', '<i2', '|i1', '>u2', '>i4']))
        info = np.iinfo(dt)
        raw = ints(rng, ny, nx, info.min, info.max).astype(dt)
        lo = float(rng.choice([-3.5, 0.0, 200.0, -1e-3]))
        hi = lo + float(rng.choice([1.0, 7.25, 1e-2]))
        z = (raw.astype(float) - info.min) / (float(info.max) - info.min) * (hi - lo) + lo
    else:
        dt = str(rng.choice(['<f8', '<f4', '>f8']))
        z = floats(rng, ny, nx, 'f8')
        z[mask(rng, ny, nx)] = np.nan
        raw = z.astype(dt)
        z = raw.astype(float)
    items = [('topography', raw)]
    layers = {}
    for name, kind in (('RGB', 0), ('Intensität', 1), ('Laser', 2)):
        if rng.random() < .4:
            layers[name] = rgb(rng, ny, nx) if kind == 0 else ints(rng, ny, nx, 0, 255).astype('u1') if kind == 1 else \
                ints(rng, ny, nx, 0, 65535).astype('<u2')
            items.append((name, layers[name]))
    b = b'SFLZ' + b'1.0'.ljust(10)
    for f, v in zip(('<d', '<d', '<?', '<d', '<d', '<H', '<H', '<B'), (sx, sy, scaled, lo, hi, len(items), int(rng.integers(3)), code)):
        b += struct.pack(f, v)
    for name, a in items:
        data, t = pack(np.ascontiguousarray(a).tobytes()), name.encode('utf-8')
        b += struct.pack('<H', len(t)) + t + struct.pack('<IIB3sI', a.shape[1], a.shape[0], 3 if a.ndim == 3 else 1, a.dtype.str.encode(), len(data)) + data
    return Enc('.sflz', b, z, sx, sy, 1e-12, layers=layers, what=dict(dtype=dt, scaled=scaled, compression=code))


ENCODERS = dict(plu=plu, plux=plux, fits=fits, gwy=gwy, opd=opd, os3d=os3d, vk4=vk4, vk6=vk6, vk7=vk7, x3p=x3p, xyz=xyz, zmg=zmg,
                nms=nms, dat=dat, sur=sur, sdf=sdf, al3d=al3d, tmd=tmd, sflz=sflz)
