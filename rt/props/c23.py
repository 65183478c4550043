"""C23: rotation and alignment."""
import numpy as np
from surfalize import Surface
from rt import gen
from rt.core import Stage

ID = 'C23'
RULE = ('Random surfaces of all shapes rotated by multiples of 90 degrees (against the exactly rotated array) and smooth '
        'analytic surfaces rotated by arbitrary angles (against the analytically rotated height function, searched over '
        'whole and half sample positions of the centre); gratings of random direction, period and shape aligned with both '
        'axes and methods (against the direction in which the heights are constant).')
ASSUMPTIONS = ['Equal step sizes in x and y except for multiples of 90 degrees.', 'Aspect ratio up to 2.5.', 'Aligned gratings: at least 30 points per period and 3 periods along the sampled axis (refined method).',
               'The position of the centre may be off by one sample and the size by three samples (cropped rim).']
REQUIRED = {'event:quarter': 300, 'event:angle': 300, 'event:align': 150}


def ideal(ny, nx, angle):
    ar = ny / nx
    t = np.deg2rad(angle)
    w = nx / (max(ar, 1 / ar) * abs(np.sin(t)) + abs(np.cos(t)))
    return w * ar, w


def quarter(case):
    rng = case.rng
    s, d = gen.surface(rng, 6, 60)
    ny, nx = s.data.shape
    if max(ny, nx) > 2.5 * min(ny, nx):
        return
    k = int(rng.integers(-5, 9))
    case.note(**d, quarters=k)
    case.event('quarter', k % 4)
    z = np.array(s.data)
    r = s.rotate(90 * k)
    want = np.rot90(z, k)
    h, w = ideal(ny, nx, 90 * k)
    a = r.data
    # the largest centred block of the ideal size, up to a rim
    case.check(h - 3 <= a.shape[0] <= h + 1e-9 and w - 3 <= a.shape[1] <= w + 1e-9, 'size of the rotated surface', got=a.shape,
               ideal=[h, w])
    tol = 1e-9 * np.max(np.abs(z))
    found = False
    for oy in range(want.shape[0] - a.shape[0] + 1):
        for ox in range(want.shape[1] - a.shape[1] + 1):
            if np.all(np.abs(want[oy:oy + a.shape[0], ox:ox + a.shape[1]] - a) <= tol):
                cy, cx = oy + (a.shape[0] - 1) / 2 - (want.shape[0] - 1) / 2, ox + (a.shape[1] - 1) / 2 - (want.shape[1] - 1) / 2
                if abs(cy) <= 1 and abs(cx) <= 1:
                    found = True
    case.check(found, 'rotation by a multiple of 90 degrees is not the central part of the rotated heights', quarters=k)
    steps = (s.step_x, s.step_y) if k % 2 == 0 else (s.step_y, s.step_x)
    case.close('step_x', r.step_x, steps[0], rtol=1e-9)
    case.close('step_y', r.step_y, steps[1], rtol=1e-9)
    case.close('extents', [r.width_um, r.height_um], [(a.shape[1] - 1) * steps[0], (a.shape[0] - 1) * steps[1]], rtol=1e-9)


def angle(case):
    rng = case.rng
    nx = int(rng.integers(30, 90))
    ny = int(np.clip(nx * rng.uniform(0.45, 2.2), 24, 120))
    step = float(rng.choice([0.1, 0.37, 1.0, 2.0]))
    offset = float(rng.choice([0.0, 100.0, -1000.0]))
    # waves of at least 12 samples
    waves = []
    for _ in range(3):
        lam, th = rng.uniform(12, 40), rng.uniform(0, 2 * np.pi)
        waves.append((2 * np.pi / lam * np.cos(th), 2 * np.pi / lam * np.sin(th), rng.uniform(0, 6), rng.uniform(.3, 1)))
    f = lambda x, y: offset + sum(a * np.sin(kx * x + ky * y + p) for kx, ky, p, a in waves)
    y, x = np.mgrid[:ny, :nx].astype(float)
    z = f(x - (nx - 1) / 2, y - (ny - 1) / 2)
    s = Surface(z, step, step)
    th = float(rng.choice([rng.uniform(-360, 360), rng.uniform(-45, 45), rng.uniform(-3, 3), rng.integers(-36, 36) * 5 + 0.0]))
    case.note(shape=[ny, nx], step=step, offset=offset, angle=th, waves=waves)
    case.event('angle')
    r = s.rotate(th)
    a = r.data
    h, w = ideal(ny, nx, th)
    case.check(h - 3.01 <= a.shape[0] <= h + 1e-6 and w - 3.01 <= a.shape[1] <= w + 1e-6, 'size of the rotated surface',
               got=a.shape, ideal=[h, w])
    case.close('step_x', r.step_x, step, rtol=1e-9)
    case.close('step_y', r.step_y, step, rtol=1e-9)
    t = np.deg2rad(th)
    best = np.inf
    amp = np.max(np.abs(z - offset))
    rr, cc = np.mgrid[:a.shape[0], :a.shape[1]].astype(float)
    # The spline of the original deviates from f in the outermost samples: only points at a distance of two count
    for dy in (0, .5, -.5, 1, -1):
        for dx in (0, .5, -.5, 1, -1):
            u = cc - (a.shape[1] - 1) / 2 + dx
            v = rr - (a.shape[0] - 1) / 2 + dy           # downwards
            # counterclockwise as displayed with y downwards
            X = u * np.cos(t) - v * np.sin(t)
            Y = u * np.sin(t) + v * np.cos(t)
            inner = (np.abs(X) <= (nx - 1) / 2 - 2) & (np.abs(Y) <= (ny - 1) / 2 - 2)
            if inner.sum() < 20:
                continue
            best = min(best, np.max(np.abs(a - f(X, Y))[inner]) / amp)
    case.within('deviation from the rotated surface (relative to its amplitude)', best, 0, 0.03, angle=th)
    # no invalid points: everything within the range of the heights
    case.within('lowest point', a.min(), z.min() - 0.35 * amp, np.inf)
    case.within('highest point', a.max(), -np.inf, z.max() + 0.35 * amp)


def align(case):
    rng = case.rng
    nx = int(rng.integers(130, 200))
    ny = max(125, int(nx * rng.uniform(0.7, 1.4)))
    th = float(rng.choice([rng.uniform(0, 180), 90 * rng.integers(2) + rng.uniform(-8, 8)]))
    c, sn = abs(np.cos(np.deg2rad(th))), abs(np.sin(np.deg2rad(th)))
    method = str(rng.choice(['fft_refined', 'fft']))
    # the refined method needs 30 points and 3 periods along the axis it samples
    n = nx if c >= sn else ny
    period = float(rng.uniform(30 if method == 'fft_refined' else 8, n / 3.2)) * max(c, sn)
    step = float(rng.choice([0.1, 0.5, 1.0]))
    z = gen.grating(rng, ny, nx, th, period * step, step, noise=rng.choice([0, 0.02]))
    s = Surface(z, step, step)
    axis = str(rng.choice(['x', 'y']))
    case.note(shape=[ny, nx], period=period, direction=th, axis=axis, method=method)
    case.event('align', axis + method)
    r = s.align(axis=axis, method=method)
    a = r.data[3:-3, 3:-3]
    a = a if axis == 'y' else a.T
    # parallel to y: all columns constant, so the mean over the rows keeps the wave
    keep = np.std(a.mean(axis=0)) / np.std(a)
    other = np.std(a.mean(axis=1)) / np.std(a)
    case.within('share of the wave constant along the chosen axis', keep, 0.93 if method == 'fft_refined' else 0.45, 1.001,
                other=other)
    case.close('step', [r.step_x, r.step_y], [step, step], rtol=1e-9)
    case.raises('axis', ValueError, lambda: s.align(axis=str(rng.choice(['z', 'X', '']))))


STAGES = [Stage('quarter', quarter, 3600, 72000, large=150, huge=1800), Stage('angle', angle, 4800, 72000), Stage('align', align, 1800, 24000)]
