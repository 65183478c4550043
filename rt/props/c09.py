"""C09: spectral parameters - period, periods along the axes, orientation, Ssw, Std, angular power spectrum."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C09'
RULE = ('Random surfaces with a dominant spectral peak against an independent search in the transform; ideal and noisy '
        'gratings (direction, period, shape, step sizes) against their true period and direction; angular power spectrum '
        'against direct accumulation (bins that a component lies on the border of are given as a band) and Parseval.')
ASSUMPTIONS = ['Frequencies k/(n*step) or (known finding, pinned) k/((n-1)*step).',
               'Peak-based results are judged if one pair of conjugate peaks dominates by more than 1e-6 and does not lie '
               'on the Nyquist frequency.',
               'Refined orientation: at least 6 (with noise 30) points per period along both axes, 3 periods, noise below 10 % of the amplitude (10 degree tolerance, 1 degree without noise).']
REQUIRED = {'event:peak': 150, 'event:spectrum': 150, 'event:grating': 150, 'event:refined': 60, 'event:profile': 50}


def transform(z):
    """Spectrum of the centred heights and signed integer frequencies."""
    F = np.fft.fft2(z - z.mean())
    ny, nx = z.shape
    ky = (np.arange(ny) + ny // 2) % ny - ny // 2
    kx = (np.arange(nx) + nx // 2) % nx - nx // 2
    return F, ky, kx


def angle_of(fx, fy):
    """Angle of the lines of a wave (fx, fy) towards the vertical, positive if they lean right going down."""
    if fx == 0:
        return 90.0
    if fy == 0:
        return 0.0
    return -math.degrees(math.atan(fy / fx))


def scales(s):
    ny, nx = s.size
    return [((nx - 1) * s.step_x, (ny - 1) * s.step_y), (nx * s.step_x, ny * s.step_y)]


def peak(case):
    rng = case.rng
    s, d = gen.surface(rng, 4, 40)
    if rng.random() < 0.4:
        z = np.array(s.data)
        z = z + gen.grating(rng, *z.shape, rng.uniform(0, 180), rng.uniform(3, 15) * s.step_x, s.step_x, step_y=s.step_y,
                            amp=float(np.ptp(z)))
        s = Surface(z, s.step_x, s.step_y)
    case.note(**d)
    z = np.array(s.data)
    F, ky, kx = transform(z)
    A = np.abs(F)
    A0 = A.copy()
    iy, ix = np.unravel_index(np.argmax(A), A.shape)
    py, px = int(ky[iy]), int(kx[ix])
    ny, nx = z.shape
    A[iy, ix] = 0
    A[(-iy) % ny, (-ix) % nx] = 0
    nyq = (2 * abs(py) == ny) or (2 * abs(px) == nx)
    ok = A.max() < A0[iy, ix] * (1 - 1e-6) and not nyq and (px or py) and A0[iy, ix] > 1e-9 * np.max(np.abs(z)) * z.size
    if not ok:
        case.count('not_judged')
    else:
        case.event('peak', [px, py])
        f = s.get_fourier_transform()
        cands = []
        for w, h in scales(s):
            fx, fy = px / w, py / h
            cands.append((1 / math.hypot(fx, fy), math.inf if px == 0 else 1 / abs(fx), math.inf if py == 0 else 1 / abs(fy),
                          angle_of(fx, fy)))
        for name, k, vals in (('period', 0, (s.period(), f.period(), s.Ssw(), f.dominant_wavelength())),
                              ('period along x', 1, (s.period_x_y()[0], f.period_x_y()[0])),
                              ('period along y', 2, (s.period_x_y()[1], f.period_x_y()[1])),
                              ('orientation', 3, (s.orientation(method='fft'), f.orientation()))):
            for v in vals:
                case.close_any(name, v, [c[k] for c in cands], rtol=1e-9, atol=1e-9, peak=[px, py])
    # angular power spectrum
    step = float([1, 1, 2, 5, 10, 0.5, 7][rng.integers(7)])
    case.event('spectrum', step)
    angles, spec = s.get_fourier_transform().angular_power_spectrum() if step == 1 and rng.random() < 0.5 else \
        s.get_fourier_transform().angular_power_spectrum(step)
    bins = np.arange(0, 180, step)
    case.close('angles of the spectrum', angles, bins, rtol=1e-12)
    P = (A0 ** 2).ravel()
    tot = P.sum()
    # Values of an offset beyond 1e9 times the heights leave nothing but rounding errors
    tol = 1e-9 * tot + 1e-18 * (np.max(np.abs(z)) * z.size) ** 2
    case.close('power of the angular spectrum (Parseval)', spec.sum(), z.size * ((z - z.mean()) ** 2).sum(), rtol=1e-9, atol=tol)
    ok_any, bands = False, []
    for w, h in scales(s):
        KY, KX = np.meshgrid(ky / h, kx / w, indexing='ij')
        th = np.degrees(np.arctan2(KY, KX)).ravel()
        nb = bins.size
        idx = lambda t: np.minimum(np.floor(np.mod(t, 180.0) / step).astype(int), nb - 1)
        b0, b1, b2 = idx(th), idx(th - 1e-7), idx(th + 1e-7)
        sure = (b1 == b2) | (KY.ravel() == 0)       # 0 and 180 degrees are the same direction and belong to the first angle
        b0 = np.where(KY.ravel() == 0, 0, b0)
        lo = np.bincount(b0[sure], P[sure], nb)
        hi = lo.copy()
        for b in (b1, b2):
            hi += np.bincount(b[~sure], P[~sure], nb)
        bands.append((lo, hi))
        ok_any = ok_any or bool(np.all((spec >= lo - tol) & (spec <= hi + tol)))
    case.check(ok_any, 'angular power spectrum differs from the power of the directions', got=spec[:20])
    std = s.Std(step)
    hit = np.flatnonzero(np.abs(bins - std) < 1e-9)
    case.check(hit.size == 1, 'Std is one of the angles of the spectrum', got=std)
    case.check(any(hi[hit[0]] >= lo.max() - tol for lo, hi in bands), 'Std is the direction of the largest power', got=std)
    if rng.random() < 0.3:
        case.close('default resolution of Std', s.Std(), s.get_fourier_transform().Std(0.5), rtol=0)


def grating(case):
    """Ground truth within the resolution of the transform."""
    rng = case.rng
    ny, nx = int(rng.integers(40, 110)), int(rng.integers(40, 110))
    sx, sy = gen.steps(rng)
    W, H = nx * sx, ny * sy
    theta = float(rng.choice([0, 90, 30, 60, 120, 150])) if rng.random() < 0.25 else float(rng.uniform(0, 180))
    t = math.radians(theta)
    # period so that there are >= 4 waves and >= 4 points per wave
    pmin = 4.5 * max(sx * abs(math.cos(t)), sy * abs(math.sin(t)))
    pmax = max(W * abs(math.cos(t)), H * abs(math.sin(t))) / 4
    if pmax <= pmin * 1.05:
        return
    p = float(rng.uniform(pmin, pmax))
    amp = float(rng.uniform(0.1, 5))
    z = gen.grating(rng, ny, nx, theta, p, sx, amp=amp, noise=0.05 * amp, step_y=sy) + float(rng.uniform(-9, 9))
    s = Surface(z, sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy], theta=round(theta, 3), period=round(p, 4))
    case.event('grating')
    fx, fy = math.cos(t) / p, math.sin(t) / p
    # one bin of the transform plus the bias (n-1)/n
    dx, dy = 1.0 / W + abs(fx) * 1.2 / nx, 1.0 / H + abs(fy) * 1.2 / ny
    px, py = s.period_x_y()
    case.within('frequency along x', 1 / px, abs(fx) - dx, abs(fx) + dx)
    case.within('frequency along y', 1 / py, abs(fy) - dy, abs(fy) + dy)
    f = math.hypot(fx, fy)
    case.within('frequency', 1 / s.period(), f - math.hypot(dx, dy), f + math.hypot(dx, dy))
    case.within('dominant wavelength', 1 / s.Ssw(), f - math.hypot(dx, dy), f + math.hypot(dx, dy))
    # worst direction within the box of one bin
    dev = max(abs(math.degrees(math.atan2((fy + a * dy) * fx - (fx + b * dx) * fy, (fx + b * dx) * fx + (fy + a * dy) * fy)))
              for a in (-1, 0, 1) for b in (-1, 0, 1))
    if dev < 40:
        want = -math.degrees(math.atan(fy / fx)) if abs(fx) > 1e-12 else 90.0
        diff = lambda a, b: abs((a - b + 90) % 180 - 90)
        o = s.orientation(method='fft')
        case.check(-90 <= o <= 90, 'range of the orientation', got=o)
        case.within('orientation (fft)', diff(o, want), 0, dev + 1e-6, got=o, want=want)
        st = s.Std(1.0)
        case.within('Std', diff(st, theta), 0, dev + 1.0 + 1e-6, got=st, want=theta)
    # a profile-like surface keeps the period along one axis only
    case.close('Ssw equals the period', s.Ssw(), s.period(), rtol=1e-9)


def refined(case):
    rng = case.rng
    sx, sy = gen.steps(rng, equal=bool(rng.random() < 0.6))
    n = int(rng.integers(100, 200))
    ny, nx = n, int(n * rng.uniform(0.8, 1.25))
    if rng.random() < 0.5:
        ny, nx = nx, ny
    k = rng.integers(5)
    theta = (float(rng.uniform(-8, 8)), 90 + float(rng.uniform(-8, 8)), float(rng.uniform(0, 180)),
             float(45 + 90 * rng.integers(2) + rng.uniform(-6, 6)), float(rng.uniform(0, 180)))[k]
    t = math.radians(theta)
    c, sn = abs(math.cos(t)), abs(math.sin(t))
    amp = float(rng.uniform(0.5, 5)) * float(rng.choice([1, 1, 1e-6, 1e3]))
    noise = float(rng.choice([0, 0, 0.02, 0.05]))
    # the axis that is sampled (either one near 45 degrees) sees a period of >= 6 (with noise 30) points and >= 3 periods
    axes = [(m, st, k) for m, st, k in ((c, sx, nx), (sn, sy, ny)) if m > max(c, sn) - 0.2]
    lo = max([(30 if noise else 6) * st * m for m, st, k in axes] + [6 * c * sx, 6 * sn * sy])
    hi = min(k * st * m / 3.2 for m, st, k in axes)
    if lo >= hi:
        case.count('not_judged')
        return
    p = lo * (hi / lo) ** float(rng.random())
    z = gen.grating(rng, ny, nx, theta, p, sx, amp=amp, noise=noise * amp, step_y=sy) + float(rng.uniform(-9, 9))
    s = Surface(z, sx, sy)
    want = -math.degrees(math.atan(math.tan(t))) if abs(math.cos(t)) > 1e-12 else 90.0
    case.note(shape=[ny, nx], step=[sx, sy], theta=round(theta, 3), period=round(p, 3), noise=noise)
    case.event('refined')
    got = s.orientation() if rng.random() < 0.5 else s.orientation(method='fft_refined')
    diff = abs((got - want + 90) % 180 - 90)
    case.within('refined orientation', diff, 0, 1.0 if noise == 0 else 10.0, got=got, want=want)
    case.raises('unknown method', ValueError, lambda: s.orientation(method='hough'))


def profile(case):
    rng = case.rng
    n = int(rng.integers(60, 600))
    st = float([0.1, 0.5, 1.0, 2.0][rng.integers(4)])
    k = float(rng.uniform(1.6, n / 6)) if rng.random() < .6 else int(rng.integers(2, n // 6))
    amp = float(rng.uniform(5, 50)) if rng.random() < .4 else float(10.0 ** rng.uniform(-10, 3))
    noise = float(rng.choice([0, 0.02]))
    z = amp * np.sin(2 * np.pi * k * np.arange(n) / n + rng.uniform(0, 6)) + noise * amp * rng.normal(size=n) + float(rng.choice([0, 1, -300])) * amp
    p = Profile(z, st)
    case.note(length=n, waves=round(k, 3), step=st, amp=amp, noise=noise)
    case.event('profile')
    f = 1 / p.period()
    case.within('period of a profile', f, (k - 1) / (n * st), (k + 1) / (n * st))
    if noise and isinstance(k, int):
        case.close('period of a profile with a whole number of waves', 1 / f, n * st / k, rtol=1e-9)
    c = float(2.0 ** rng.integers(-30, 20))
    case.close('period of a profile (heights scaled)', Profile(z * c, st).period(), 1 / f, rtol=1e-9)


def probe_bias():
    n = 64
    z = np.sin(2 * np.pi * 4 * np.arange(n) / n)[None].repeat(64, 0)
    return abs(Surface(z, 1.0, 1.0).period() - 16.0) > 1e-6


PROBES = {'frequency-bias': probe_bias}
STAGES = [Stage('peak', peak, 4000, 75000, large=100), Stage('grating', grating, 2400, 50000), Stage('refined', refined, 768, 15000),
          Stage('profile', profile, 960, 20000)]
