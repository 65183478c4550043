"""Writable formats: option sets and the accuracy with which each one keeps heights and step sizes."""
import io
import os
import warnings
from pathlib import Path
import numpy as np
from surfalize import Surface
from surfalize.image import Image

WRITABLE = ('.sur', '.sdf', '.al3d', '.tmd', '.sflz')
EPS32 = 2.0 ** -24
INTS = ('<u4', '<i4', '>u4', '>i4', '<u2', '<i2', '>u2', '|u1', '|i1', '<u8', '<i8')
FLOATS = ('<f8', '>f8', '<f4', '>f4', '<f2')


def options(rng, fmt):
    o = {}
    if fmt == '.sur':
        if rng.random() < .6:
            o['compressed'] = bool(rng.random() < .7)
        if rng.random() < .4:
            o['comment'] = str(rng.choice(['', 'x', 'a comment', 'µm ÄÖ', 'c' * 700]))
    elif fmt == '.sdf':
        if rng.random() < .7:
            o['binary'] = bool(rng.random() < .4)
    elif fmt == '.tmd':
        if rng.random() < .4:
            o['comment'] = str(rng.choice(['', 'x', 'exactly 21 characters', 'aµµµµµµµµµ', 'µm']))
    elif fmt == '.sflz':
        if rng.random() < .7:
            o['compression'] = str(rng.choice(['none', 'zlib', 'lzma']))
        if rng.random() < .7:
            o['dtype'] = str(rng.choice(INTS + FLOATS))
        if rng.random() < .2:
            o['write_metadata'] = bool(rng.random() < .5)
    return o


def accuracy(fmt, o, z):
    """Elementwise bound of the error of the heights, relative error of the step sizes."""
    z = np.asarray(z, dtype=float)
    lo, hi = np.nanmin(z), np.nanmax(z)
    rge, mid, mx = hi - lo, abs(lo + hi) / 2, max(abs(lo), abs(hi))
    a = np.nan_to_num(np.abs(z))
    if fmt == '.sur':
        return np.full(z.shape, 4e-8 * rge + 6.2e-8 * mid + 1e-30), 6.2e-8
    if fmt == '.al3d':
        return a * 2.5e-7 + 1e-30, 1e-14
    if fmt == '.tmd':
        return a * 6.2e-8 + 1e-37, 6.2e-8
    if fmt == '.sdf':
        if o.get('binary', True):
            return a * 1e-14, 1e-14
        e = 10.0 ** np.floor(np.log10(mx)) if mx > 0 else 1.0
        return a * 1e-14 + 0.51e-10 * e, 1e-14
    dt = np.dtype(o.get('dtype', '<u4'))
    if dt.kind in 'iu':
        if np.isnan(z).any():
            return a * 0.0, 0.0
        n = 2.0 ** (8 * dt.itemsize) - 1
        return np.full(z.shape, rge * 1.02 / n + 4e-15 * (mx + rge)), 0.0
    if dt.itemsize == 8:
        return a * 0.0, 0.0
    if dt.itemsize == 4:
        return a * 6.2e-8 + 1e-37, 0.0
    return a * 5e-4 + 1e-7, 0.0


def storable(fmt, o, z):
    if o.get('dtype') == '<f2' and np.nanmax(np.abs(z)) > 6e4:
        return False
    return True


def save(s, target, fmt, o, rng=None):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return s.save(target, **o) if not isinstance(target, io.IOBase) else s.save(target, format=fmt, **o)


def load(target, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Surface.load(target, **kw)


def variant(rng, z):
    """The same heights (rounded to the type) in another memory layout or data type."""
    r = rng.random()
    if r < .45:
        return np.array(z), 'C float64'
    if r < .6:
        return np.array(z).astype('f4'), 'C float32'
    if r < .7:
        return np.asfortranarray(z), 'F float64'
    if r < .8:
        return np.array(z)[::-1, ::-1], 'negative strides'
    if r < .87:
        big = np.full((z.shape[0] * 2, z.shape[1] * 3), 7.0)
        big[::2, ::3] = z
        return big[::2, ::3], 'strided'
    if r < .93:
        return np.array(z).astype('>f8'), 'big endian'
    return np.array(z).astype('f4').astype('>f4')[:, ::-1], 'big endian float32 reversed'


def make_layers(rng, shape):
    ny, nx = shape
    layers = {}
    for name in rng.permutation(['Grayscale', 'RGB', 'Höhe µm', 'topo', 'a', 'Intensity', ('long ' * 20).strip()])[:rng.integers(1, 4)]:
        k = rng.integers(6)
        if k == 5:
            a = np.asfortranarray(rng.integers(0, 256, size=(ny, nx, int(rng.integers(2, 5))), dtype=np.uint8))
        elif k == 0:
            a = rng.integers(0, 256, size=(ny, nx), dtype=np.uint8)
        elif k == 1:
            a = rng.integers(0, 256, size=(ny, nx, 3), dtype=np.uint8)
        elif k == 2:
            a = rng.integers(0, 65536, size=(ny, nx), dtype=np.uint16)
        elif k == 3:
            a = rng.integers(0, 256, size=(ny, nx, 4), dtype=np.uint8)[:, ::-1]
        else:
            a = rng.integers(0, 256, size=(nx, ny), dtype=np.uint8).T
        layers[str(name)] = Image(a)
    return layers


def same_surface(case, what, got, z, sx, sy, atol, rstep, **ctx):
    """The loaded surface has the heights z (error bound atol per point), the steps and no other missing points."""
    d = np.asarray(got.data)
    case.check(d.shape == z.shape, f'{what}: shape', got=d.shape, want=z.shape, **ctx)
    gn, wn = np.isnan(d), np.isnan(z)
    case.check(np.array_equal(gn, wn), f'{what}: non-measured points', got=int(gn.sum()), want=int(wn.sum()), **ctx)
    with np.errstate(invalid='ignore'):
        err = np.abs(d.astype(float) - np.asarray(z, float))
    bad = ~wn & ~(err <= atol)
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(wn, -1, err - atol)), z.shape)
        case.fail(f'{what}: {int(bad.sum())} heights differ from those saved', at=list(map(int, i)), got=float(d[i]), want=float(z[i]),
                  tolerance=float(np.asarray(atol)[i]), **ctx)
    case.nchecks += 1
    case.close(f'{what}: steps', [got.step_x, got.step_y], [sx, sy], rtol=0, atol=0 if rstep == 0 else rstep * max(sx, sy), **ctx)
    case.within(f'{what}: step_x', got.step_x, sx * (1 - rstep), sx * (1 + rstep), **ctx)
    case.within(f'{what}: step_y', got.step_y, sy * (1 - rstep), sy * (1 + rstep), **ctx)
    case.check(tuple(got.size) == z.shape, f'{what}: size', **ctx)
    case.close(f'{what}: extents', [got.width_um, got.height_um], [(z.shape[1] - 1) * got.step_x, (z.shape[0] - 1) * got.step_y],
               rtol=1e-12, **ctx)
