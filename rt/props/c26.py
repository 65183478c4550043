"""C26: extraction of profiles."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C26'
RULE = ('Random surfaces (all shapes, unequal step sizes, holes); profiles at coordinates on and off the grid, on the borders '
        'and outside, with odd averages and average steps; oblique profiles between random points on smooth analytic '
        'surfaces, along rows, columns and diagonals; against direct look-up of the samples / the analytic height.')
ASSUMPTIONS = ['y counts the rows from the first row on; an odd number of averaged profiles.',
               'Coordinates keep 0.05 steps distance from the middle between two data points.']
REQUIRED = {'event:horizontal': 300, 'event:vertical': 300, 'event:average': 200, 'event:oblique': 200, 'event:outside': 300}


def coordinate(rng, n, step):
    """(coordinate, index of the closest data point)"""
    i = int(rng.choice([0, n - 1, rng.integers(n), rng.integers(n)]))
    off = float(rng.choice([0, 0, rng.uniform(-0.45, 0.45)]))
    c = (i + off) * step
    c = min(max(c, 0.0), (n - 1) * step)
    return c, i


def straight(case):
    rng = case.rng
    s, d = gen.surface(rng, 3, 30, nan=rng.random() < 0.3)
    case.note(**d)
    z = np.array(s.data)
    for kind in ('horizontal', 'vertical'):
        hor = kind == 'horizontal'
        a = z if hor else z.T
        step, along = (s.step_y, s.step_x) if hor else (s.step_x, s.step_y)
        get = s.get_horizontal_profile if hor else s.get_vertical_profile
        n = a.shape[0]
        for _ in range(4):
            c, i = coordinate(rng, n, step)
            case.event(kind, [i, c / step])
            p = get(c)
            case.check(type(p) is Profile, 'type of a profile')
            case.close(f'{kind} profile', p.data, a[i], rtol=1e-13, at=i)
            case.close(f'step of a {kind} profile', p.step, along, rtol=1e-12)
            case.close(f'length of a {kind} profile', p.length_um, (a.shape[1] - 1) * along, rtol=1e-12)
            case.check(p.size == a.shape[1], 'number of points')
            # averages
            k = int(rng.choice([1, 3, 5, 7, 9, 11]))
            m = int(rng.choice([1, 1, 2, 3, 4]))
            case.event('average', [k, m])
            kw = {} if m == 1 and rng.random() < 0.5 else {'average_step': m * step * float(rng.uniform(0.95, 1.05)) if m > 1 else
                                                           step * float(rng.uniform(0.1, 1.2))}
            rows = [i + j * m for j in range(-(k // 2), k // 2 + 1)]
            rows = [r for r in rows if 0 <= r < n]
            want = a[rows].mean(axis=0)
            p = get(c, average=k, **kw)
            case.close(f'{kind} profile, average of {k} (step {m})', p.data, want, rtol=1e-11,
                       atol=1e-12 * np.nanmax(np.abs(z)), rows=rows)
            case.close('step of an averaged profile', p.step, along, rtol=1e-12)
        far = float(rng.uniform(1.01, 3)) * (n - 1) * step + 1e-6
        for c in (far, -far, -0.6 * step, (n - 1) * step * 1.0001 + 1e-6):
            case.event('outside', kind)
            case.raises(f'{kind} profile outside of the surface', ValueError, lambda: get(c))


def exact_lines(case):
    """Oblique profiles along rows, columns and diagonals hit data points."""
    rng = case.rng
    s, d = gen.surface(rng, 4, 30)
    case.note(**d)
    z = np.array(s.data)
    ny, nx = z.shape
    tol = 1e-9 * (np.max(np.abs(z)) + 1e-300)
    y, x = int(rng.integers(ny)), int(rng.integers(nx))
    x0, x1 = (int(v) for v in rng.choice(nx, 2, replace=False))
    y0, y1 = (int(v) for v in rng.choice(ny, 2, replace=False))
    k = int(rng.integers(1, min(ny, nx)))
    yd, xd = int(rng.integers(0, ny - k)), int(rng.integers(0, nx - k))
    sgn = int(rng.choice([-1, 1]))
    for name, a, b, want in (
            ('row', (x0, y), (x1, y), z[y, min(x0, x1):max(x0, x1) + 1][::1 if x1 > x0 else -1]),
            ('column', (x, y0), (x, y1), z[min(y0, y1):max(y0, y1) + 1, x][::1 if y1 > y0 else -1])):
        j = rng.uniform(-0.4, 0.4, 4)
        p = s.get_oblique_profile((a[0] + j[0]) * s.step_x, (a[1] + j[1]) * s.step_y, (b[0] + j[2]) * s.step_x,
                                  (b[1] + j[3]) * s.step_y)
        case.event('oblique', name)
        L = math.hypot((a[0] - b[0]) * s.step_x, (a[1] - b[1]) * s.step_y)
        case.close(f'oblique profile along a {name}', p.data, want, rtol=0, atol=tol, a=a, b=b)
        case.close('length', p.length_um, L, rtol=1e-9)
        case.close('step', p.step, L / (p.size - 1), rtol=1e-9)
    # diagonal: the end points and (whenever points coincide) the samples in between
    a, b = ((xd, yd), (xd + k, yd + k)) if sgn > 0 else ((xd, yd + k), (xd + k, yd))
    p = s.get_oblique_profile(a[0] * s.step_x, a[1] * s.step_y, b[0] * s.step_x, b[1] * s.step_y)
    case.close('start of a diagonal', p.data[0], z[a[1], a[0]], rtol=0, atol=tol)
    case.close('end of a diagonal', p.data[-1], z[b[1], b[0]], rtol=0, atol=tol)
    case.close('length of a diagonal', p.length_um, math.hypot(k * s.step_x, k * s.step_y), rtol=1e-9)
    case.close('step of a diagonal', p.step * (p.size - 1), p.length_um, rtol=1e-9)
    # refused
    far = 1.0 + 0.6 / max(1, min(nx, ny) - 1)
    for c in ((-0.6, 0, nx - 1, ny - 1), (0, -0.6, nx - 1, ny - 1), (0, 0, nx - 0.4, ny - 1), (0, 0, nx - 1, ny - 0.4),
              (x, y, x, y), (2 * nx, 0, 0, 0), (nx - 0.4, 0, 0, ny - 1), (0, ny - 0.4, nx - 1, 0)):
        case.event('outside', 'oblique')
        case.raises('oblique profile outside of the surface or without extent', ValueError,
                    lambda: s.get_oblique_profile(c[0] * s.step_x, c[1] * s.step_y, c[2] * s.step_x, c[3] * s.step_y), at=c)


def smooth(case):
    """Analytic height along the line."""
    rng = case.rng
    ny, nx = int(rng.integers(16, 50)), int(rng.integers(16, 50))
    sx, sy = gen.steps(rng)
    # waves of at least 12 points, mirror-symmetric at the borders so that splines are accurate there
    kx, ky = int(rng.integers(1, (nx - 1) // 6)), int(rng.integers(1, (ny - 1) // 6))
    amp = float(rng.uniform(0.1, 10))
    f = lambda y, x: amp * (np.cos(np.pi * kx * x / (nx - 1)) * 0.7 + np.cos(np.pi * ky * y / (ny - 1))
                            * (1 + 0.5 * np.cos(np.pi * x / (nx - 1))))
    y, x = np.mgrid[:ny, :nx]
    s = Surface(f(y, x), sx, sy)
    p0 = int(rng.integers(nx)), int(rng.integers(ny))
    p1 = int(rng.integers(nx)), int(rng.integers(ny))
    if p0 == p1:
        return
    case.note(shape=[ny, nx], step=[sx, sy], start=p0, end=p1, waves=[kx, ky])
    case.event('oblique', 'smooth')
    p = s.get_oblique_profile(p0[0] * sx, p0[1] * sy, p1[0] * sx, p1[1] * sy)
    n = p.size
    dist = math.hypot(p1[0] - p0[0], p1[1] - p0[1])
    case.check(0.6 * dist <= n - 1 <= 3 * dist + 1, 'sampling of the oblique profile', n=n, dist=dist)
    t = np.linspace(0, 1, n)
    want = f(p0[1] + t * (p1[1] - p0[1]), p0[0] + t * (p1[0] - p0[0]))
    case.close('oblique profile', p.data, want, rtol=0, atol=0.02 * amp)
    L = math.hypot((p1[0] - p0[0]) * sx, (p1[1] - p0[1]) * sy)
    case.close('length', p.length_um, L, rtol=1e-9)
    case.close('step', p.step, L / (n - 1), rtol=1e-9)
    r = s.get_oblique_profile(p1[0] * sx, p1[1] * sy, p0[0] * sx, p0[1] * sy)
    case.close('reversed line', r.data[::-1], p.data, rtol=0, atol=1e-9 * amp)


STAGES = [Stage('straight', straight, 4000, 80000, large=200, huge=2000), Stage('exact_lines', exact_lines, 4000, 80000, large=200, huge=2000), Stage('smooth', smooth, 6000, 90000, large=200)]
