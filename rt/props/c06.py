"""C06: hybrid parameters - surface area, developed area ratio, RMS gradient."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C06'
RULE = ('Random surfaces (all shapes, equal and unequal step sizes), tilted planes and profiles with analytically known '
        'slope; area, developed area ratio and RMS gradients against the triangulated mesh and finite differences '
        'evaluated sample by sample in the harness.')
ASSUMPTIONS = ['Accepted triangulations of a cell: either diagonal, or (known finding, pinned by the test suite) twice '
               'its upper left triangle.', 'Projected area: the exact one, or (known finding, pinned) with one row and '
               'one column of cells less.']
REQUIRED = {'event:area': 300, 'event:plane': 100, 'event:profile': 100}


def areas(z, sx, sy):
    ny, nx = z.shape
    tl = diag1 = diag2 = 0.0
    a, b, c, d = z[:-1, :-1], z[:-1, 1:], z[1:, :-1], z[1:, 1:]

    def tri(u, v):   # height difference along x, along y
        return 0.5 * np.sqrt((sy * u) ** 2 + (sx * v) ** 2 + (sx * sy) ** 2)

    t_tl = tri(b - a, c - a)
    t_br = tri(d - c, d - b)
    t_tr = tri(b - a, d - b)
    t_bl = tri(d - c, c - a)
    f = lambda m: math.fsum(m.ravel().tolist())
    return [2 * f(t_tl), f(t_tl) + f(t_br), f(t_tr) + f(t_bl)]


def accepted_projected(ny, nx, sx, sy):
    return [(nx - 1) * sx * (ny - 1) * sy, (nx - 2) * sx * (ny - 2) * sy]


def general(case):
    rng = case.rng
    lo, hi = (3, 50) if rng.random() < 0.95 else (50, 160)
    s, d = gen.surface(rng, lo, hi)
    case.note(**d)
    z = np.array(s.data)
    ny, nx = z.shape
    sx, sy = s.step_x, s.step_y
    case.event('area', d['kind'])
    A = areas(z, sx, sy)
    P = accepted_projected(ny, nx, sx, sy)
    case.close_any('surface area', s.surface_area(), A, rtol=1e-9)
    case.close_any('projected area', s.projected_area(), P, rtol=1e-9, atol=1e-12 * sx * sy * nx * ny)
    if s.projected_area() > 1e-6 * sx * sy:
        case.close_any('Sdr', s.Sdr(), [(a / p - 1) * 100 for a in A for p in P if p > 0], rtol=1e-7, atol=1e-6)
        case.close('Sdr from the areas', s.Sdr(), (s.surface_area() / s.projected_area() - 1) * 100, rtol=1e-9, atol=1e-9)
    gx = [(z[i, j + 1] - z[i, j]) / sx for i in range(ny) for j in range(nx - 1)]
    gy = [(z[i + 1, j] - z[i, j]) / sy for i in range(ny - 1) for j in range(nx)]
    tot = math.fsum(v * v for v in gx) + math.fsum(v * v for v in gy)
    case.close('Sdq', s.Sdq(), math.sqrt(tot / (ny * nx)), rtol=1e-9)


def plane(case):
    """Analytic truth on tilted planes and invariances that do not depend on the formula."""
    rng = case.rng
    ny, nx = gen.shape(rng, 4, 60)
    sx, sy = gen.steps(rng)
    a, b, c = rng.uniform(-3, 3), rng.uniform(-3, 3), rng.uniform(-10, 10)
    y, x = np.mgrid[:ny, :nx]
    s = Surface(a * x * sx + b * y * sy + c, sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy], slopes=[round(a, 4), round(b, 4)])
    case.event('plane')
    case.close('area of a plane', s.surface_area(), math.sqrt(1 + a * a + b * b) * (nx - 1) * sx * (ny - 1) * sy, rtol=1e-8)
    case.close('gradient of a plane', s.Sdq(), math.sqrt((a * a * ny * (nx - 1) + b * b * (ny - 1) * nx) / (nx * ny)), rtol=1e-7)
    # invariances
    t, d = gen.surface(rng, 4, 30)
    z, tx, ty = np.array(t.data), t.step_x, t.step_y
    off = Surface(z + 12.5, tx, ty)
    tr = Surface(z.T.copy(), ty, tx)
    m = float(np.max(np.abs(z)) + 12.5)
    tol = 1e-8 + 1e-12 * m / min(tx, ty)
    case.close('Sdq is independent of the offset', off.Sdq(), t.Sdq(), rtol=1e-7, atol=tol)
    case.close('Sdq when the axes are swapped', tr.Sdq(), t.Sdq(), rtol=1e-9)
    case.close('area when the axes are swapped', tr.surface_area(), t.surface_area(), rtol=1e-9)
    case.close('area is independent of the offset', off.surface_area(), t.surface_area(), rtol=1e-7)
    k = float(rng.uniform(0.1, 9))
    case.close('Sdq scales with the height', Surface(z * k, tx, ty).Sdq(), k * t.Sdq(), rtol=1e-9)
    sc = Surface(z * k, tx * k, ty * k)
    case.close('area scales with the square of the length unit', sc.surface_area(), k * k * t.surface_area(), rtol=1e-9)
    case.close('Sdq is dimensionless', sc.Sdq(), t.Sdq(), rtol=1e-9)
    case.close('Sdr is dimensionless', sc.Sdr(), t.Sdr(), rtol=1e-7, atol=1e-6)


def profile(case):
    rng = case.rng
    p, d = gen.profile(rng, 5, 300)
    case.note(**d)
    z = np.array(p.data).tolist()
    case.event('profile')
    g = [(v - u) / p.step for u, v in zip(z, z[1:])]
    case.close('Rdq', p.Rdq(), math.sqrt(math.fsum(v * v for v in g) / len(g)), rtol=1e-9)


def probe_projected():
    s = Surface(np.zeros((20, 30)), 1.0, 1.0)
    return abs(s.Sdr()) > 1e-9


def probe_area():
    z = np.array([[0., 0, 0], [0, 0, 5], [0, 2, 0]])
    s = Surface(z, 1.0, 1.0)
    A = areas(z, 1.0, 1.0)
    got = s.surface_area()
    return min(abs(got - A[1]), abs(got - A[2])) > 1e-9


PROBES = {'projected-area-cells': probe_projected, 'surface-area-one-triangle': probe_area}
STAGES = [Stage('general', general, 10000, 150000, large=150, huge=2500), Stage('plane', plane, 6000, 100000, large=200, huge=3000), Stage('profile', profile, 4000, 80000, large=100, huge=2000)]
