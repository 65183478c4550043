"""C13: save -> load round trips."""
import io
import os
from datetime import datetime
from pathlib import Path
import numpy as np
from surfalize import Surface
from rt import gen, formats as fm
from rt.core import Stage

ID = 'C13'
RULE = ('Random surfaces (shapes from 1 x n, offsets, scales, holes, constant heights, data types and memory layouts) are '
        'saved with random options to paths and buffers in every writable format, loaded again and compared point by point '
        'within the resolution of the format; image layers, comments and time stamps where the format has them; chains of '
        'several formats; loaded surfaces are then modified and compared with surfaces built from the same heights.')
ASSUMPTIONS = ['Resolution of the format: sur 32 bit integers with single precision scale and offset, al3d/tmd single '
               'precision, sdf double precision (ascii: 10 decimals), sflz as chosen.',
               'At least one measured point; 2 to 65535 points per axis for sdf.',
               'Metadata: sur comment, tmd comment, sdf creation date; other metadata is not stored by the writers.']
REQUIRED = {f'event:saved{f}': 150 for f in fm.WRITABLE}
REQUIRED.update({'event:path': 200, 'event:buffer': 200, 'event:missing': 150, 'event:edited': 300, 'event:layers': 60,
                 'event:chain': 100, 'event:constant': 30, 'event:variant:C float32': 60, 'event:comment': 20})


def heights(case, rng, lo=1):
    r = rng.random()
    ny, nx = gen.shape(rng, lo, 26)
    if r < .03:
        ny, nx = int(rng.integers(100, 300)), int(rng.integers(100, 300))
    z, kind = gen.heights(rng, ny, nx)
    if rng.random() < .08:
        z = np.full((ny, nx), float(rng.choice([0.0, 1.5, -3e3, 1e-4])))
        kind = 'constant'
        case.event('constant')
    elif rng.random() < .1:
        z = z * float(rng.choice([1e-6, 1e-9, 1e4]))
    if rng.random() < .35 and z.size >= 8:
        z[gen.nan_mask(rng, ny, nx)] = np.nan
    if np.isnan(z).all():
        z.flat[0] = 1.0
    r = rng.random()
    if r < .12:     # the highest or lowest point at a height of exactly zero
        z = z - (np.nanmax(z) if r < .07 else np.nanmin(z))
        if rng.random() < .6 and np.nanmax(np.abs(z)) > 0:
            z = z / np.nanmax(np.abs(z)) * 10.0 ** -rng.integers(3, 10)
    if np.isnan(z).any():
        case.event('missing')
    return z, kind


def target(case, rng, fmt):
    if rng.random() < .5:
        case.event('buffer')
        return io.BytesIO()
    case.event('path')
    sub = os.path.join(case.tmp, str(rng.choice(['a', 'Ä b', 'x.y'])))
    os.makedirs(sub, exist_ok=True)
    p = os.path.join(sub, str(rng.choice(['f', 'name.with.dots', 'µ'])) + (fmt if rng.random() < .8 else fmt.upper()))
    if rng.random() < .3:
        with open(p, 'wb') as fh:
            fh.write(b'\x55' * int(rng.integers(1, 200000)))
    return p if rng.random() < .5 else Path(p)


def kwargs(rng, t, fmt):
    kw = {}
    if isinstance(t, io.IOBase):
        if rng.random() < .5:
            kw['format'] = fmt
    elif rng.random() < .3:
        kw['format'] = fmt
    if rng.random() < .3:
        kw['read_image_layers'] = bool(rng.random() < .5)
    if rng.random() < .3:
        kw['encoding'] = str(rng.choice(['auto', 'utf-8']))
    return kw


def trip(case, rng, s, fmt, o, layers=None):
    t = target(case, rng, fmt)
    ret = fm.save(s, t, fmt, o)
    case.check(ret is None, 'return value of save')
    case.event('saved' + fmt, o)
    if isinstance(t, io.BytesIO):
        case.check(t.tell() == 0, 'the position of the buffer is restored after saving', pos=t.tell())
    kw = kwargs(rng, t, fmt)
    if layers:
        kw['read_image_layers'] = True
    l = fm.load(t, **kw)
    if isinstance(t, io.BytesIO):
        case.check(t.tell() == 0, 'the position of the buffer is restored after loading', pos=t.tell())
    case.check(type(l) is Surface, 'type of a loaded surface')
    return l, t, kw


def editable(case, rng, l, fmt):
    """A loaded surface is an ordinary surface: assignments and in-place operations work as on one built from its heights."""
    case.event('edited')
    z = np.array(l.data)
    ref = Surface(np.array(l.data), l.step_x, l.step_y)
    k = rng.integers(4)
    y, x = int(rng.integers(z.shape[0])), int(rng.integers(z.shape[1]))
    if k == 0:
        l[y, x] = 0.25
        ref[y, x] = 0.25
        case.check(l.data[y, x] == 0.25, 'assignment to a loaded surface', format=fmt)
    elif k == 1:
        l.invert(inplace=True)
        ref.invert(inplace=True)
    elif k == 2:
        l.zero(inplace=True)
        ref.zero(inplace=True)
    else:
        l.center(inplace=True)
        ref.center(inplace=True)
    case.same('modified loaded surface', l.data, ref.data, format=fmt, operation=int(k))
    if not np.isnan(z).any() and min(z.shape) >= 2 and z.dtype.kind == 'f' and z.dtype.itemsize >= 4:
        case.same('Sq, Sz of a modified loaded surface', [l.Sq(), l.Sz()], [ref.Sq(), ref.Sz()], format=fmt)


def roundtrip(case):
    rng = case.rng
    z, kind = heights(case, rng)
    fmt = str(rng.choice(fm.WRITABLE))
    o = fm.options(rng, fmt)
    a, name = fm.variant(rng, z)
    case.event('variant:' + name)
    sx, sy = gen.steps(rng)
    if rng.random() < .1:
        sx, sy = sx * 1e-4, sy * 1e3
    case.note(kind=kind, shape=list(z.shape), fmt=fmt, options=o, layout=name, step=[sx, sy])
    s = Surface(a, sx, sy)
    z = np.array(s.data, dtype=float)
    if not fm.storable(fmt, o, z) or max(z.shape) > 65535:
        return
    before = z.copy()
    l, t, kw = trip(case, rng, s, fmt, o)
    case.same('saving leaves the heights alone', np.asarray(s.data, float), before)
    atol, rstep = fm.accuracy(fmt, o, z)
    fm.same_surface(case, f'{fmt} {o}', l, z, sx, sy, atol, rstep, layout=name, loaded_with=kw)
    if 'comment' in o:
        case.event('comment', o['comment'])
        got = l.metadata['comment']
        if fmt == '.sur':
            case.check(got == o['comment'].encode('utf-8'), 'comment of a sur file', got=repr(got), want=o['comment'])
        else:
            case.check(got.strip() == o['comment'].strip(), 'comment of a tmd file', got=repr(got), want=o['comment'])
    if not kw.get('read_image_layers'):
        case.check(not l.image_layers, 'no image layers without being asked for', got=list(l.image_layers))
    # loading has no side effect on the file and is repeatable
    m = fm.load(t, **kw)
    case.same('loading a second time', m.data, l.data)
    editable(case, rng, l, fmt)
    case.same('another surface loaded from the same file is unaffected', m.data, fm.load(t, **kw).data)


def layers(case):
    rng = case.rng
    z, kind = heights(case, rng, 2)
    lay = fm.make_layers(rng, z.shape)
    want = {k: np.array(v.data) for k, v in lay.items()}
    o = fm.options(rng, '.sflz')
    if not fm.storable('.sflz', o, z):
        return
    keep = True
    if rng.random() < .4:
        keep = o['save_image_layers'] = bool(rng.random() < .6)
    s = Surface(z.copy(), 0.5, 0.25, image_layers=lay)
    case.note(shape=list(z.shape), names=list(want), options=o, shapes=[list(a.shape) for a in want.values()])
    case.event('layers')
    l, t, kw = trip(case, rng, s, '.sflz', o, layers=True)
    atol, rstep = fm.accuracy('.sflz', o, z)
    fm.same_surface(case, 'sflz with image layers', l, z, 0.5, 0.25, atol, rstep, options=o)
    if not keep:
        case.check(not l.image_layers, 'image layers although not saved')
    else:
        case.check(list(l.image_layers) == list(want), 'names of the image layers', got=list(l.image_layers), want=list(want))
        for k, a in want.items():
            case.same(f'image layer {k}', l.image_layers[k].data, a)
            case.check(l.image_layers[k].data.dtype == a.dtype, 'type of an image layer')
            l.image_layers[k].data[0, 0] = 3
    n = fm.load(t, **{**kw, 'read_image_layers': False})
    case.check(not n.image_layers, 'image layers are only read on request')
    fm.same_surface(case, 'without image layers', n, z, 0.5, 0.25, atol, rstep)


def chain(case):
    """Several conversions in a row: errors accumulate at most by the resolution of each format."""
    rng = case.rng
    z, kind = heights(case, rng, 2)
    a, name = fm.variant(rng, z)
    s = Surface(a, *gen.steps(rng))
    z = np.array(s.data, dtype=float)
    sx, sy = s.step_x, s.step_y
    atol, rstep, path = np.zeros(z.shape), 1e-14, []
    for _ in range(int(rng.integers(2, 5))):
        fmt = str(rng.choice(fm.WRITABLE))
        o = fm.options(rng, fmt)
        o.pop('comment', None)
        if not fm.storable(fmt, o, s.data):
            continue
        path.append([fmt, o])
        t_atol, t_rstep = fm.accuracy(fmt, o, np.asarray(s.data, float))
        s = trip(case, rng, s, fmt, o)[0]
        atol, rstep = atol + t_atol * 1.01 + 1e-6 * atol, rstep + t_rstep * 1.01
    case.note(shape=list(z.shape), kind=kind, path=path, layout=name)
    case.event('chain', path)
    fm.same_surface(case, 'chain of formats', s, z, sx, sy, atol, rstep, path=path)


def stamps(case):
    """Creation dates survive in sdf files."""
    rng = case.rng
    when = datetime(int(rng.integers(1990, 2040)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)),
                    int(rng.integers(60)))
    s = Surface(rng.normal(size=(4, 5)), 1, 1, metadata={'timestamp': when})
    case.note(when=str(when))
    for binary in (True, False):
        b = io.BytesIO()
        s.save(b, format='.sdf', binary=binary)
        l = fm.load(b, format='.sdf')
        got = l.metadata['CreateDate']
        if binary:
            got = datetime.strptime(got, '%d%m%Y%H%M')
        else:
            case.check(l.metadata.get('ExportedBy') == 'Surfalize', 'trailer of an ascii sdf file', got=list(l.metadata))
        case.check(got == when, 'creation date', got=str(got), want=str(when), binary=binary)
    with_meta = io.BytesIO()
    l.save(with_meta, format=str(rng.choice(fm.WRITABLE)))


STAGES = [Stage('roundtrip', roundtrip, 20000, 180000, timeout=60, large=400, huge=6600), Stage('layers', layers, 1500, 15000),
          Stage('chain', chain, 2500, 24000), Stage('stamps', stamps, 200, 1200)]
