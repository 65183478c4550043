"""C10: Gaussian filter."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C10'
RULE = ('Random surfaces and profiles (equal and unequal step sizes), cutoffs from below a step to the size of the map, all '
        'end-effect modes; results against a direct evaluation of the Gaussian-weighted mean with explicit index folding '
        'at the edges; waves of the cutoff wavelength; band-pass composition; step responses.')
ASSUMPTIONS = ['Weights are those of ISO 16610 sampled at the data points; truncating the tails at four standard '
               'deviations or more is accepted (tolerance 2e-4 of the height range).']
REQUIRED = {'event:kernel': 300, 'event:wave': 100, 'event:bandpass': 60, 'event:profile': 60}
MODES = ('reflect', 'mirror', 'nearest', 'wrap', 'constant')
ALPHA = math.sqrt(math.log(2) / math.pi)


def fold(i, n, mode):
    """Index of the sample that stands for position i outside of the data (None: zero)."""
    if mode == 'nearest':
        return np.clip(i, 0, n - 1), np.ones(i.shape)
    if mode == 'wrap':
        return i % n, np.ones(i.shape)
    if mode == 'constant':
        return np.clip(i, 0, n - 1), ((i >= 0) & (i < n)).astype(float)
    if mode == 'reflect':
        j = i % (2 * n)
        return np.where(j < n, j, 2 * n - 1 - j), np.ones(i.shape)
    if n == 1:
        return np.zeros_like(i), np.ones(i.shape)
    j = i % (2 * n - 2)
    return np.where(j < n, j, 2 * n - 2 - j), np.ones(i.shape)


def matrix(n, cutoff_px, mode):
    """Smoothing matrix along one axis: s(x) ~ exp(-pi (x / (alpha Lc))^2)."""
    r = int(math.ceil(3.2 * cutoff_px)) + 2
    k = np.arange(-r, r + 1)
    w = np.exp(-math.pi * (k / (ALPHA * cutoff_px)) ** 2)
    w /= w.sum()
    m = np.zeros((n, n))
    for i in range(n):
        j, f = fold(i + k, n, mode)
        np.add.at(m[i], j, w * f)
    return m


def low_ref(z, cutoff, steps, mode):
    if z.ndim == 1:
        return matrix(z.size, cutoff / steps[0], mode) @ z
    return matrix(z.shape[0], cutoff / steps[1], mode) @ z @ matrix(z.shape[1], cutoff / steps[0], mode).T


def make(rng):
    if rng.random() < 0.25:
        o, d = gen.profile(rng, 5, 120)
        return o, d, (o.step,), True
    o, d = gen.surface(rng, 3, 44)
    return o, d, (o.step_x, o.step_y), False


def tol(z):
    return 2e-4 * (np.ptp(z)) + 1e-11 * np.max(np.abs(z))


def kernel(case):
    rng = case.rng
    o, d, st, prof = make(rng)
    z = np.array(o.data)
    if rng.random() < 0.2:      # single spike: the kernel itself
        z[:] = 0.0
        z[tuple(n // 2 for n in z.shape)] = 1.0
        o = Profile(z, o.step) if prof else Surface(z, o.step_x, o.step_y)
    cutoff = float(max(st) * math.exp(rng.uniform(math.log(0.3), math.log(max(z.shape) * 0.7))))
    mode = None if rng.random() < 0.4 else MODES[rng.integers(len(MODES))]
    kw = {} if mode is None else {'endeffect_mode': mode}
    m = mode or 'reflect'
    case.note(object='profile' if prof else 'surface', cutoff=cutoff, mode=mode, **d)
    case.event('kernel', m)
    if prof:
        case.event('profile')
    low, high = o.filter('lowpass', cutoff, **kw), o.filter('highpass', cutoff, **kw)
    want = low_ref(z, cutoff, st, m)
    t = tol(z) + (2e-4 * np.max(np.abs(z)) if m == 'constant' else 0)
    case.close(f'low-pass heights ({m})', low.data, want, rtol=0, atol=t)
    case.close(f'high-pass heights ({m})', high.data, z - want, rtol=0, atol=t)
    scale = np.max(np.abs(z)) + 1e-300
    case.close('low-pass + high-pass', low.data + high.data, z, rtol=0, atol=1e-12 * scale)
    h2, l2 = o.filter('both', cutoff, **kw)
    case.close('high-pass of "both"', h2.data, high.data, rtol=0, atol=1e-12 * scale)
    case.close('low-pass of "both"', l2.data, low.data, rtol=0, atol=1e-12 * scale)
    for r in (low, high, h2, l2):
        case.check(type(r) is type(o), 'type of the result')
        case.check((r.step == o.step) if prof else (r.step_x == o.step_x and r.step_y == o.step_y), 'step sizes of the result')
    if rng.random() < .1:
        case.raises('unknown kind of filter', ValueError, lambda: o.filter(str(rng.choice(['low', 'notch', 'Both', ''])), cutoff))
    if m != 'constant':
        case.check(low.data.min() >= z.min() - t and low.data.max() <= z.max() + t,
                   'the low-pass result is a weighted mean')


def big(case):
    """Kernels and maps longer than usual block sizes."""
    rng = case.rng
    lo, hi = (200, 500) if rng.random() < .7 else (500, 1100)
    case.event('big')
    with gen.forced(int(rng.integers(lo, hi)), int(rng.integers(lo, hi))) if rng.random() < .6 else gen.forced(*[int(v) for v in rng.permutation([rng.integers(1000, 2100), rng.integers(3, 9)])]):
        kernel(case)


def bandpass(case):
    rng = case.rng
    o, d, st, prof = make(rng)
    z = np.array(o.data)
    c1 = float(max(st) * rng.uniform(0.8, max(z.shape) * 0.3))
    c2 = c1 * float(rng.uniform(1.1, 4))
    mode = MODES[rng.integers(len(MODES))]
    case.note(object='profile' if prof else 'surface', cutoff=c1, cutoff2=c2, mode=mode, **d)
    case.event('bandpass', mode)
    r = o.filter('bandpass', c1, c2, endeffect_mode=mode)
    l1 = low_ref(z, c1, st, mode)
    t = 3 * tol(z) + (4e-4 * np.max(np.abs(z)) if mode == 'constant' else 0)
    case.close(f'band-pass heights ({mode})', r.data, l1 - low_ref(l1, c2, st, mode), rtol=0, atol=t)
    two = o.filter('lowpass', c1, endeffect_mode=mode).filter('highpass', c2, endeffect_mode=mode)
    case.close('band-pass is low-pass, then high-pass', r.data, two.data, rtol=0, atol=1e-11 * np.max(np.abs(z)))
    # band-pass without end-effect argument
    r = o.filter('bandpass', c1, cutoff2=c2)
    l1 = low_ref(z, c1, st, 'reflect')
    case.close('band-pass heights (default)', r.data, l1 - low_ref(l1, c2, st, 'reflect'), rtol=0, atol=3 * tol(z))
    case.raises('band-pass with cutoff2 < cutoff', ValueError, lambda: o.filter('bandpass', c2, c1))
    case.raises('band-pass with equal cutoffs', ValueError, lambda: o.filter('bandpass', c1, c1))
    case.raises('band-pass without cutoff2', ValueError, lambda: o.filter('bandpass', c1))
    case.raises('unknown filter type', ValueError, lambda: o.filter('notch', c1))
    case.raises('both in place', ValueError, lambda: o.filter('both', c1, inplace=True))


def wave(case):
    """A wave of the cutoff wavelength keeps half of its amplitude along either axis."""
    rng = case.rng
    sx, sy = gen.steps(rng)
    axis = int(rng.integers(3))        # 0: along y, 1: along x, 2: profile
    k = int(rng.integers(1, 5))        # number of waves (periodic data)
    per = int(rng.integers(12, 30))
    n = k * per
    amp, off = float(rng.uniform(0.1, 20)), float(rng.uniform(-5, 5))
    w = amp * np.sin(2 * np.pi * np.arange(n) / per + rng.uniform(0, 6))
    lateral = int(rng.integers(4, 12))
    st = (sy, sx, sx)[axis]
    q = float(rng.uniform(0.4, 2.5)) if rng.random() < 0.6 else 1.0
    cutoff = per * st * q
    trans = math.exp(-math.pi * (ALPHA * q) ** 2)       # 0.5 for q = 1
    case.note(axis=axis, n=n, period_px=per, step=[sx, sy], amplitude=amp, q=q)
    case.event('wave', axis)
    if axis == 2:
        o = Profile(w + off, sx)
    else:
        z = np.repeat((w + off)[:, None], lateral, 1)
        o = Surface(np.ascontiguousarray(z if axis == 0 else z.T), sx, sy)
    low = o.filter('lowpass', cutoff, endeffect_mode='wrap').data
    if axis != 2:
        low = low[:, 0] if axis == 0 else low[0]
    case.close('transmission of a wave', low - off, w * trans, rtol=0, atol=amp * 4e-4 + 1e-9)
    if q == 1.0:
        case.close('amplitude at the cutoff', np.ptp(low) / np.ptp(w), 0.5, rtol=0, atol=1e-3)


STAGES = [Stage('kernel', kernel, 5000, 112000), Stage('big', big, 24, 600), Stage('bandpass', bandpass, 1200, 32000), Stage('wave', wave, 3000, 48000)]
