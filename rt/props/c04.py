"""C04: geometry - extents, cropping, zooming and slicing."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ops
from rt.core import Stage

ID = 'C04'
RULE = ('Surfaces whose samples all have distinct values (so every sample in a result identifies its origin) are cropped '
        '(physical and pixel boxes, on and off the grid), zoomed and sliced; the origin of every sample, the step sizes '
        'and the extents are compared with the requested region.')
ASSUMPTIONS = ['Physical coordinates given to crop lie within 0.45 step of a data point or clearly outside the surface.',
               'The zoomed region may differ by one sample from the ideal centred region of size n/factor.']
REQUIRED = {'event:crop': 300, 'event:zoom': 100, 'event:slice': 200, 'event:extent': 300, 'event:outside': 100}


def unique(rng, ny, nx):
    return rng.permutation(ny * nx).reshape(ny, nx).astype(float) + rng.uniform(0, 0.4)


def extents(case, s, what):
    case.event('extent', what)
    if isinstance(s, Profile):
        case.close(f'{what}: length', s.length_um, (s.data.shape[0] - 1) * s.step, rtol=1e-12)
        case.check(s.size == s.data.shape[0], f'{what}: size')
        return
    ny, nx = s.data.shape
    case.check(tuple(s.size) == (ny, nx) and s.size.y == ny and s.size.x == nx, f'{what}: size {s.size} vs {(ny, nx)}')
    case.close(f'{what}: width', s.width_um, (nx - 1) * s.step_x, rtol=1e-12)
    case.close(f'{what}: height', s.height_um, (ny - 1) * s.step_y, rtol=1e-12)


def crop(case):
    rng = case.rng
    ny, nx = gen.shape(rng, 3, 60)
    sx, sy = gen.steps(rng)
    z = unique(rng, ny, nx)
    if rng.random() < 0.3:
        z[gen.nan_mask(rng, ny, nx)] = np.nan
    s = Surface(z.copy(), sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy])
    for _ in range(6):
        x0, x1 = sorted(rng.integers(0, nx, 2).tolist())
        y0, y1 = sorted(rng.integers(0, ny, 2).tolist())
        if rng.random() < 0.2:
            x0, x1, y0, y1 = 0, nx - 1, 0, ny - 1
        inplace = bool(rng.random() < 0.5)
        t = Surface(z.copy(), sx, sy)
        off = rng.uniform(-0.45, 0.45, 4) if rng.random() < 0.7 else np.zeros(4)
        # the y axis of physical boxes points upwards, row 0 is the top
        box = ((x0 + off[0]) * sx, (x1 + off[1]) * sx, (y0 + off[2]) * sy, (y1 + off[3]) * sy)
        case.event('crop', [round(float(b), 4) for b in box])
        r = t.crop(box, inplace=inplace)
        want = z[ny - 1 - y1:ny - y0, x0:x1 + 1]
        case.same('crop in units', r.data, want, box=box)
        case.check(r.step_x == sx and r.step_y == sy, 'crop changed the step size')
        extents(case, r, 'crop')
        t = Surface(z.copy(), sx, sy)
        r = t.crop((x0, x1, y0, y1), in_units=False, inplace=inplace)
        case.same('crop in pixels', r.data, z[y0:y1 + 1, x0:x1 + 1], box=(x0, x1, y0, y1))
        extents(case, r, 'crop px')
    full = s.crop((0, s.width_um, 0, s.height_um))
    case.same('crop to the full extent', full.data, z)
    for label, box, px in [('right', (0, (nx - 1 + .6) * sx, 0, s.height_um), True),
                           ('top', (0, s.width_um, 0, (ny - 1 + .6) * sy), True),
                           ('left', (-.6 * sx, s.width_um, 0, s.height_um), True),
                           ('bottom', (0, s.width_um, -.6 * sy, s.height_um), True),
                           ('px right', (0, nx, 0, ny - 1), False), ('px bottom', (0, nx - 1, 0, ny), False),
                           ('px left', (-1, nx - 1, 0, ny - 1), False), ('px top', (0, nx - 1, -1, ny - 1), False)]:
        case.event('outside', label)
        case.raises(f'box beyond the {label} edge', ValueError, lambda: s.crop(box, in_units=px))


def crop_profile(case):
    rng = case.rng
    n = int(rng.integers(4, 200))
    st = gen.steps(rng)[0]
    z = rng.permutation(n).astype(float)
    case.note(n=n, step=st)
    for _ in range(6):
        x0 = int(rng.integers(0, n - 1))
        x1 = int(rng.integers(x0 + 1, n))
        inplace = bool(rng.random() < 0.5)
        a, b = rng.uniform(-0.45, 0.45, 2)
        case.event('crop', [x0, x1])
        r = Profile(z.copy(), st).crop(((x0 + a) * st, (x1 + b) * st), inplace=inplace)
        case.same('profile crop in units', r.data, z[x0:x1 + 1])
        case.check(r.step == st, 'crop changed the step size')
        extents(case, r, 'profile crop')
        r = Profile(z.copy(), st).crop((x0, x1), in_units=False, inplace=inplace)
        case.same('profile crop in pixels', r.data, z[x0:x1 + 1])
    p = Profile(z.copy(), st)
    case.event('outside')
    for iv, u in [((0, (n - .4) * st), True), ((-.6 * st, 2 * st), True), ((0, n), False), ((-1, 2), False), ((2, 2), False)]:
        case.raises('profile crop out of bounds', ValueError, lambda: p.crop(iv, in_units=u))
    f = float(rng.uniform(1, 4))
    zoom_check(case, p.zoom(f), z[None, :], f, 'profile zoom', axes=(1,))
    extents(case, p.zoom(f), 'profile zoom')


def locate(block, z):
    """Offset of a contiguous block of z (all values distinct), or None."""
    if block.size == 0:
        return None
    pos = np.argwhere(z == block.flat[0])
    if len(pos) != 1:
        return None
    y, x = pos[0]
    if np.array_equal(z[y:y + block.shape[0], x:x + block.shape[1]], block):
        return int(y), int(x)
    return None


def zoom_check(case, r, z, f, what, axes=(0, 1)):
    case.event('zoom', round(f, 4))
    blk = r.data if r.data.ndim == 2 else r.data[None, :]
    off = locate(blk, z)
    case.check(off is not None, f'{what}({f}) is not a contiguous part of the original')
    for ax in axes:
        n, m = z.shape[ax], blk.shape[ax]
        case.check(abs(m - n / f) <= 1 + 1e-9, f'{what}({f}): {m} of {n} samples along axis {ax}')
        case.check(abs(off[ax] - (n - m) / 2) <= 1.01, f'{what}({f}) is not centred along axis {ax}', off=off, n=n, m=m)


def zoom(case):
    rng = case.rng
    ny, nx = gen.shape(rng, 4, 70)
    sx, sy = gen.steps(rng)
    z = unique(rng, ny, nx)
    f = float(rng.uniform(1, 4)) if rng.random() < 0.7 else float(rng.integers(1, 4))
    case.note(shape=[ny, nx], step=[sx, sy], factor=f)
    f = min(f, min(ny, nx) / 2)
    for inplace in (False, True):
        s = Surface(z.copy(), sx, sy)
        r = s.zoom(f, inplace=inplace)
        zoom_check(case, r, z, f, 'zoom')
        case.check(r.step_x == sx and r.step_y == sy, 'zoom changed the step size')
        extents(case, r, 'zoom')


def rslice(rng, n, lo=2):
    for _ in range(50):
        a = None if rng.random() < 0.3 else int(rng.integers(-n, n))
        b = None if rng.random() < 0.3 else int(rng.integers(-n, n + 1))
        c = None if rng.random() < 0.4 else int(rng.choice([1, 2, 3, 4, -1, -2, -3]))
        if len(range(n)[a:b:c]) >= lo:
            return slice(a, b, c)
    return slice(None)


def slices(case):
    rng = case.rng
    ny, nx = gen.shape(rng, 4, 50)
    sx, sy = gen.steps(rng)
    z = unique(rng, ny, nx)
    s = Surface(z.copy(), sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy])
    for _ in range(12):
        key = (rslice(rng, ny), rslice(rng, nx)) if rng.random() < 0.7 else rslice(rng, ny)
        case.event('slice', repr(key))
        r = s[key]
        case.same(f'slice {key!r}', r.data, z[key])
        ky, kx = key if isinstance(key, tuple) else (key, slice(None))
        case.close(f'slice {key!r}: step_y', r.step_y, sy * abs(ky.step or 1), rtol=1e-12)
        case.close(f'slice {key!r}: step_x', r.step_x, sx * abs(kx.step or 1), rtol=1e-12)
        extents(case, r, 'slice')
    case.same('slicing left the source alone', s.data, z)


def after_ops(case):
    """The extents follow the samples after any sequence of operations and assignments."""
    rng = case.rng
    prof = rng.random() < 0.3
    o, d = gen.profile(rng, 20, 120) if prof else gen.surface(rng, 6, 40)
    case.note(object=type(o).__name__, **d)
    extents(case, o, 'new object')
    for _ in range(6):
        if min(o.data.shape) < 4 or np.isfinite(o.data).mean() < .5:
            break
        fl = ops.profile_ops(rng, o) if prof else ops.surface_ops(rng, o)
        f = fl[int(rng.integers(len(fl)))]
        inplace = bool(rng.random() < 0.6)
        before = (o.step,) if prof else (o.step_x, o.step_y)
        try:
            r = f(o, inplace)
        except ValueError:
            continue
        extents(case, r, f.label)
        if f.method not in ('rotate', 'align'):
            case.check(((r.step,) if prof else (r.step_x, r.step_y)) == before, f'{f.label} changed the step size')
        if f.method not in ('rotate', 'align', 'crop', 'zoom'):
            case.check(r.data.shape == o.data.shape, f'{f.label} changed the number of samples')
        o = r
        if rng.random() < 0.2:
            o.data = gen.heights(rng, 9, 14)[0] if not prof else rng.normal(size=33)
            extents(case, o, 'assigned data')


STAGES = [Stage('crop', crop, 6400, 160000, large=200, huge=2100), Stage('crop_profile', crop_profile, 2560, 80000, large=100), Stage('zoom', zoom, 6400, 160000, large=200, huge=2100),
          Stage('slices', slices, 4000, 120000, large=200, huge=2000), Stage('after_ops', after_ops, 4000, 80000)]
