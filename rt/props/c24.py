"""C24: step height, levelling of a step, cavity volume."""
import numpy as np
from surfalize import Surface
from rt import gen
from rt.core import Stage

ID = 'C24'
RULE = ('Two-level surfaces whose true segmentation is known by construction (rectangles, grooves, discs, scattered points; '
        'upper level 4 to 96 % of the area; depth, noise, offset, unit, unequal step sizes and tilt drawn at random): step '
        'height, cavity volume at random thresholds, levelled surface and mask against direct evaluation on the true '
        'segmentation, and the same values after a change of the offset and of the units.')
ASSUMPTIONS = ['Bounded noise of up to 10 % of the depth; tilt of up to 15 % of the depth over the surface (only for '
               'levelling; with the upper level on 15 to 85 % of the area).']
REQUIRED = {'event:flat': 300, 'event:tilted': 300, 'event:volume': 600, 'event:scaled': 300}


def geometry(rng, ny, nx, lo, hi):
    """Mask of the upper level."""
    y, x = np.mgrid[:ny, :nx]
    for _ in range(200):
        k = rng.integers(5)
        if k == 0:
            y0, y1 = sorted(rng.integers(0, ny + 1, 2))
            x0, x1 = sorted(rng.integers(0, nx + 1, 2))
            low = (y >= y0) & (y < y1) & (x >= x0) & (x < x1)
        elif k == 1:
            a, b = sorted(rng.integers(0, (nx if rng.random() < .5 else ny) + 1, 2))
            c = x if b <= nx and rng.random() < .5 else y
            low = (c >= a) & (c < b)
        elif k == 2:
            low = np.hypot(y - rng.uniform(0, ny), x - rng.uniform(0, nx)) < rng.uniform(2, max(ny, nx))
        elif k == 3:
            low = rng.random((ny, nx)) < rng.uniform(.05, .95)
        else:
            low = (x // int(rng.integers(2, 9)) + y // int(rng.integers(2, 9))) % int(rng.integers(2, 5)) == 0
        up = ~low if rng.random() < .7 else low
        if lo <= up.mean() <= hi:
            return up
    up = np.zeros((ny, nx), bool)
    up[:, :nx // 2] = True
    return up


def build(rng, tilted, big=False):
    ny, nx = int(rng.integers(8, 70)), int(rng.integers(8, 70))
    if big:
        ny, nx = int(rng.integers(250, 700)), int(rng.integers(250, 700))
    sx, sy = gen.steps(rng)
    up = geometry(rng, ny, nx, *((0.15, 0.85) if tilted else (0.04, 0.96)))
    h = float(10 ** rng.uniform(-3, 3))
    rel = float(rng.choice([0, 1e-4, 1e-3, 0.01, 0.03, 0.1]))
    if rng.random() < .5:
        noise = rng.uniform(-1, 1, (ny, nx)) * rel * h
    else:
        noise = np.clip(rng.normal(size=(ny, nx)) / 3, -1, 1) * rel * h
    if not tilted and not big and rel <= 1e-3 and rng.random() < .35:     # all but a few points on one level
        k = int(rng.integers(1, 7))
        up = np.zeros(ny * nx, bool)
        up[rng.choice(ny * nx, k, replace=False)] = True
        up = up.reshape(ny, nx) if rng.random() < .6 else ~up.reshape(ny, nx)
    off = float(rng.choice([0, 0, 1, -3, 100])) * h
    z = np.where(up, 0.0, -h) + noise + off
    return z, up, h, rel, off, sx, sy


def sums(z, um, h, t):
    """Accepted volumes (per area of a point): points closer to the cut than rounding may belong to either side."""
    cut = um - t * h
    eps = 1e-11 * (abs(um) + abs(h))
    sure = z < cut - eps
    near = (np.abs(z - cut) <= eps)
    v = (um - z[sure]).sum()
    return v, v + (um - z[near]).sum()


def flat(case):
    rng = case.rng
    z, up, h, rel, off, sx, sy = build(rng, False, case.idx % 600 == 300)
    s = Surface(z.copy(), sx, sy)
    case.note(shape=list(z.shape), upper=round(float(up.mean()), 3), depth=h, noise=rel, offset=off, step=[sx, sy])
    case.event('flat')
    um, lm = np.median(z[up]), np.median(z[~up])
    want = um - lm
    tol = 1e-10 * (abs(off) + h)
    got = s.stepheight()
    case.close('step height', got, want, rtol=0, atol=tol)
    case.within('step height vs. the true depth', got, h * (1 - 2 * rel), h * (1 + 2 * rel), slack=tol)
    area = sx * sy
    for t in (None, 0.5, float(rng.uniform(0.2, 0.8)), float(rng.choice([0.15, 0.3, 0.9, 1.0, 0.02]))):
        case.event('volume', t)
        got = s.cavity_volume() if t is None else s.cavity_volume(threshold=t) if rng.random() < .5 else s.cavity_volume(t)
        lo, hi = sums(z, um, want, 0.5 if t is None else t)
        n = z.size
        case.within('cavity volume', got, lo * area, hi * area, slack=(1e-9 * hi + tol * n) * area, threshold=t)
        if t is None or 0.2 <= t <= 0.8:
            true = h * (~up).sum() * area
            case.within('cavity volume vs. depth times area', got, true * (1 - 2 * rel), true * (1 + 2 * rel),
                        slack=1e-9 * true + tol * n * area)
    # offset and units
    case.event('scaled')
    k = float(rng.choice([1e-3, 0.5, 7.0, 1e3]))
    q = float(rng.choice([1e-2, 3.0, 1e3]))
    o = float(rng.uniform(-50, 50)) * h
    u = Surface(z * k + o * k, sx * q, sy * q)
    tol2 = 1e-9 * (abs(off) + abs(o) + h) * k
    case.close('step height after a change of offset and unit', u.stepheight(), want * k, rtol=0, atol=tol2)
    case.close('cavity volume after a change of offset and unit', u.cavity_volume(0.5), s.cavity_volume(0.5) * k * q * q, rtol=1e-8,
               atol=tol2 * z.size * area * q * q)
    # orientation
    for name, w, a, b in (('mirrored', z[::-1], sx, sy), ('transposed', z.T, sy, sx)):
        v = Surface(np.ascontiguousarray(w), a, b)
        case.close(f'step height of the {name} surface', v.stepheight(), want, rtol=0, atol=tol)
        case.close(f'cavity volume of the {name} surface', v.cavity_volume(), s.cavity_volume(), rtol=1e-9)


def tilted(case):
    rng = case.rng
    z, up, h, rel, off, sx, sy = build(rng, True, case.idx % 300 == 150)
    ny, nx = z.shape
    # the upper level has to span a plane
    ys, xs = np.nonzero(up)
    if np.linalg.matrix_rank(np.column_stack((xs, ys, np.ones_like(xs)))) < 3 or len(np.unique(xs)) < 3 or len(np.unique(ys)) < 3:
        return
    rel = min(rel, 0.03)
    z = np.where(up, 0.0, -h) + np.clip(z - off - np.where(up, 0.0, -h), -rel * h, rel * h) + off
    y, x = np.mgrid[:ny, :nx].astype(float)
    T = float(rng.uniform(0, 0.15)) * h
    a = rng.uniform(0, 1)
    tx, ty = T * a * rng.choice([-1, 1]) / nx, T * (1 - a) * rng.choice([-1, 1]) / ny
    zt = z + tx * x + ty * y
    case.note(shape=[ny, nx], upper=round(float(up.mean()), 3), depth=h, noise=rel, offset=off, step=[sx, sy], tilt=[tx, ty])
    case.event('tilted')
    s = Surface(zt.copy(), sx, sy)
    # Otsu's criterion itself is evaluated without binning: the true segmentation has to be its optimum
    order = np.sort(zt.ravel())
    n = order.size
    c = np.cumsum(order)[:-1]
    k = np.arange(1, n)
    crit = k * (n - k) * (c / k - (c[-1] + order[-1] - c) / (n - k)) ** 2
    nl = int((~up).sum())
    if int(np.argmax(crit)) + 1 != nl or not zt[~up].max() + 0.3 * h < zt[up].min():
        return
    case.count('segmentable')
    A = np.column_stack((xs, ys, np.ones_like(xs))).astype(float)
    px, py, pc = np.linalg.lstsq(A, zt[up], rcond=None)[0]
    trend = px * (x - x.mean()) + py * (y - y.mean())
    tol = 1e-9 * (h + abs(off))
    inplace = rng.random() < .5
    if rng.random() < .3:
        s.stepheight()
    r = s.stepheight_level(inplace=True) if inplace else s.stepheight_level()
    case.check((r is s) == inplace, 'identity of the result')
    case.close('heights levelled on the upper level', r.data, zt - trend, rtol=0, atol=tol)
    case.close('step sizes', [r.step_x, r.step_y], [sx, sy], rtol=0)
    if not inplace:
        case.same('source', s.data, zt)
    # the upper level is flat
    cx, cy, _ = np.linalg.lstsq(A, r.data[up], rcond=None)[0]
    case.within('remaining tilt of the upper level over the surface', abs(cx) * nx + abs(cy) * ny, 0, tol)
    lev = zt - trend
    want = np.median(lev[up]) - np.median(lev[~up])
    case.close('step height of the levelled surface', r.stepheight(), want, rtol=0, atol=tol)


STAGES = [Stage('flat', flat, 9000, 150000), Stage('tilted', tilted, 9000, 150000)]
REQUIRED['segmentable'] = 500
