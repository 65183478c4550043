"""C08: autocorrelation function, Sal and Str."""
import math
import numpy as np
import scipy.ndimage as ndi
from surfalize import Surface
from rt import gen, ref
from rt.core import Stage

ID = 'C08'
RULE = ('Random surfaces of all shapes and step sizes, several thresholds: autocorrelation against direct summation over '
        'every lag, Sal/Str against an independent evaluation (flood fill, rim, spline along the line; every choice among '
        'tied rim points is accepted); gratings with analytic decay length; axis swap, scaling and offset relations.')
ASSUMPTIONS = ['Unbiased normalisation of the autocorrelation.',
               'Sal/Str are not judged if an autocorrelation value coincides with the threshold within 1e-9, or if the '
               'central peak never decays to the threshold within the map.']
REQUIRED = {'event:acf': 100, 'decays_matched': 200, 'event:grating': 60, 'event:relation': 60, 'event:long': 20}


def lines(a, c, step, thr, pts):
    """Admissible decay lengths along the lines from the centre to each of pts."""
    out = []
    for p in pts:
        L = math.hypot((p[0] - c[0]) * step[0], (p[1] - c[1]) * step[1])
        n = 1000
        t = np.linspace(0, 1, n)
        v = ndi.map_coordinates(a, [c[0] + t * (p[0] - c[0]), c[1] + t * (p[1] - c[1])], order=3)
        d = np.abs(v - thr)
        ok = d <= d.min() + 1e-9 * abs(a[c])
        s = np.sign(v - thr)
        cross = np.flatnonzero(s[:-1] * s[1:] <= 0)
        out += [(L * t[i], 1.5 * L / (n - 1)) for i in np.flatnonzero(ok)]
        out += [(L * t[i], 1.5 * L / (n - 1)) for i in cross]
    return out


def representatives(a, off, pts, tol):
    """Lowest point of the tied ones, and the lowest of each class of mirror images."""
    cls = {}
    for o, p in zip(off, pts):
        cls.setdefault((abs(int(o[0])), abs(int(o[1]))), []).append(tuple(p))
    out = []
    for ps in cls.values():
        m = min(a[p] for p in ps)
        out += [p for p in ps if a[p] <= m + tol]
    return out


def decay(a, sx, sy, s):
    """Accepted [(value, tolerance)] of the shortest and longest decay, or a reason not to judge."""
    ny, nx = a.shape
    c = (ny // 2, nx // 2)
    thr = s * a[c]
    if a[c] <= 0:
        return 'flat'
    if np.any(np.abs(a - thr) <= 1e-9 * a[c]):
        return 'tie'
    reg = ref.component(a > thr, *c)
    rim = ref.rim(reg)
    pts = np.argwhere(rim)
    if len(pts) == 0:
        return 'no decay'
    off = pts - np.array(c)
    d = np.hypot(off[:, 0] * sy, off[:, 1] * sx)
    res = []
    for ext in (d.min(), d.max()):
        k = np.abs(d - ext) <= 1e-9 * ext
        reps = representatives(a, off[k], pts[k], 1e-9 * a[c])
        res.append(lines(a, c, (sy, sx), thr, reps))
    return res


def judge(case, s, thr, kw):
    a = ref.acf(np.array(s.data))
    r = decay(a, s.step_x, s.step_y, thr)
    if isinstance(r, str):
        case.count('not_judged:' + r)
        return
    short, long = r
    sal = s.Sal(**kw)
    st = s.Str(**kw)
    case.count('decays_matched')
    case.check(any(abs(sal - v) <= t + 1e-12 for v, t in short), f'Sal(s={thr}): {sal!r} is not the shortest decay length',
               accepted=[v for v, _ in short][:8])
    lo = min((u - t) / (v + w) for u, t in short for v, w in long)
    hi = max((u + t) / max(v - w, 1e-12) for u, t in short for v, w in long)
    ok = any(abs(st - u / v) <= (t + u / v * w) / v * 1.2 + 1e-12 for u, t in short for v, w in long if v > 0)
    case.check(ok, f'Str(s={thr}): {st!r} is not the ratio of shortest and longest decay', lo=lo, hi=hi)
    f = s.get_autocorrelation_function()
    case.close('Sal of the autocorrelation function', f.Sal(thr), sal, rtol=1e-12)
    case.close('Str of the autocorrelation function', f.Str(s=thr), st, rtol=1e-12)


def general(case):
    rng = case.rng
    s, d = gen.surface(rng, 4, 24)
    if rng.random() < 0.5:      # smooth surfaces have extended central peaks
        z = ndi.gaussian_filter(rng.normal(size=s.data.shape), (rng.uniform(0.5, 3), rng.uniform(0.5, 3)), mode='wrap')
        s = Surface(z * 2 + float(rng.choice([0, 0, 50])), s.step_x, s.step_y)
        d['kind'] = 'smooth'
    case.note(**d)
    case.event('acf', d['kind'])
    a = ref.acf(np.array(s.data))
    f = s.get_autocorrelation_function()
    scale = np.var(s.data) + 1e-13 * np.max(np.abs(s.data)) ** 2
    case.close('autocorrelation', f.data, a, rtol=1e-9, atol=1e-8 * scale)
    case.check(tuple(int(v) for v in f.center) == (s.size.y - 1, s.size.x - 1), 'centre of the autocorrelation')
    case.close('zero lag is the variance', f.data[s.size.y - 1, s.size.x - 1], np.var(s.data), rtol=1e-7, atol=1e-9 * scale)
    case.close('point symmetry', f.data[::-1, ::-1], f.data, rtol=1e-7, atol=1e-8 * scale)
    if np.max(np.abs(s.data)) > 1e4 * np.std(s.data):
        return        # cancellation makes ties at the threshold likely
    judge(case, s, 0.2, {})
    t = float(rng.uniform(0.05, 0.9))
    judge(case, s, t, {'s': t})
    t = float(rng.uniform(0.002, 0.05) if rng.random() < .5 else rng.uniform(0.9, 0.998))
    judge(case, s, t, {'s': t})


def grating(case):
    """cos autocorrelation: decay to s after acos(s)/2pi of the wavelength, across the lines."""
    rng = case.rng
    sx, sy = gen.steps(rng)
    axis = int(rng.integers(2))
    per = int(rng.integers(10, 20))
    k = int(rng.integers(6, 10))
    n, m = per * k, int(rng.integers(6, 14))
    amp = float(rng.uniform(0.1, 10))
    w = amp * np.sin(2 * np.pi * np.arange(n) / per + rng.uniform(0, 6)) + float(rng.uniform(-5, 5))
    z = np.repeat(w[None], m, 0)
    thr = 0.2 if rng.random() < 0.5 else float(rng.uniform(0.1, 0.8))
    s = Surface(z if axis == 0 else np.ascontiguousarray(z.T), sx, sy)
    step = sx if axis == 0 else sy
    # a short map along the lines: the decay across has to be the shortest
    case.note(axis=axis, period_px=per, waves=k, lateral=m, step=[sx, sy], s=round(thr, 4))
    case.event('grating', axis)
    want = per * step * math.acos(thr) / (2 * math.pi)
    got = s.Sal() if thr == 0.2 else s.Sal(thr)
    case.close('Sal of a grating', got, want, rtol=0.1)


def relation(case):
    rng = case.rng
    ny, nx = int(rng.integers(12, 30)), int(rng.integers(12, 30))
    sx, sy = gen.steps(rng)
    z = ndi.gaussian_filter(rng.normal(size=(ny, nx)), (rng.uniform(1, 2.5), rng.uniform(1, 2.5)), mode='wrap')
    thr = float(rng.uniform(0.15, 0.7))
    s = Surface(z, sx, sy)
    r = decay(ref.acf(z), sx, sy, thr)
    if isinstance(r, str):
        return
    spread = [max(v for v, _ in q) - min(v for v, _ in q) for q in r]
    tol = [max(t for _, t in q) for q in r]
    if spread[0] > 2 * tol[0] or spread[1] > 2 * tol[1]:
        case.count('ambiguous')
        return
    case.note(shape=[ny, nx], step=[sx, sy], s=round(thr, 4), z0=float(z[0, 0]))
    case.event('relation')
    sal, st = s.Sal(thr), s.Str(thr)
    t = 3 * tol[0] / sal
    ts = 3 * (tol[0] / sal + tol[1] / (sal / st))
    k = float(rng.uniform(0.01, 100))
    for name, o, f in (('swapping the axes', Surface(np.ascontiguousarray(z.T), sy, sx), 1),
                       ('mirroring', Surface(np.ascontiguousarray(z[::-1]), sx, sy), 1),
                       ('mirroring in x', Surface(np.ascontiguousarray(z[:, ::-1]), sx, sy), 1),
                       ('scaling the heights', Surface(z * k, sx, sy), 1),
                       ('inverting the heights', Surface(-z, sx, sy), 1),
                       ('an offset', Surface(z + 3, sx, sy), 1),
                       ('scaling the step sizes', Surface(z, sx * k, sy * k), k)):
        case.close(f'Sal after {name}', o.Sal(thr) / f, sal, rtol=t)
        case.close(f'Str after {name}', o.Str(thr), st, rtol=ts)


def long(case):
    """Long and narrow surfaces."""
    rng = case.rng
    n, m = int(rng.integers(500, 2600)), int(rng.integers(2, 5))
    z = np.cumsum(rng.normal(size=(m, n)), axis=1) if rng.random() < 0.4 else \
        ndi.gaussian_filter(rng.normal(size=(m, n)), (0.5, rng.uniform(1, 8)), mode='wrap')
    sx, sy = gen.steps(rng)
    s = Surface(np.ascontiguousarray(z if rng.random() < 0.5 else z.T), sx, sy)
    case.note(shape=list(s.data.shape), step=[sx, sy], z0=float(z[0, 0]))
    case.event('long', s.data.shape[0] > s.data.shape[1])
    a = ref.acf(np.array(s.data))
    f = s.get_autocorrelation_function()
    case.close('autocorrelation', f.data, a, rtol=1e-9, atol=1e-8 * np.var(s.data))
    judge(case, s, 0.2, {})
    t = float(rng.uniform(0.1, 0.8))
    judge(case, s, t, {'s': t})


STAGES = [Stage('general', general, 1800, 45000), Stage('grating', grating, 600, 12500), Stage('relation', relation, 1200, 30000),
          Stage('long', long, 64, 3000)]
