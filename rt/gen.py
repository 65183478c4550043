"""Seeded generators of surfaces, profiles and operation arguments."""
import numpy as np
import surfalize
from surfalize import Surface, Profile

KINDS = ('noise', 'sine', 'steps', 'ties', 'tilted', 'rough', 'spiky')


def steps(rng, equal=None):
    if equal is None:
        equal = rng.random() < 0.5
    mags = [0.1, 0.25, 0.5, 1.0, 0.37, 2.0, 0.0137, 13.7]
    sx = float(mags[rng.integers(len(mags))])
    sy = sx if equal else sx * float([0.5, 2.0, 1.3, 0.7, 3.0][rng.integers(5)])
    return sx, sy


# heights in micrometres: from picometres to metres
AMPLITUDES = [1e-3, 1e-3, 1.0, 1.0, 1.0, 1.0, 40.0, 40.0, 1e-6, 3e4]


def heights(rng, ny, nx, kind=None):
    kind = kind or KINDS[rng.integers(len(KINDS))]
    y, x = np.mgrid[:ny, :nx].astype(float)
    if kind == 'noise':
        z = rng.normal(size=(ny, nx))
    elif kind == 'sine':
        px, ph = rng.uniform(4, max(5, nx / 2)), rng.uniform(0, 6)
        z = np.sin(2 * np.pi * x / px + ph) + 0.3 * np.cos(2 * np.pi * y / rng.uniform(4, max(5, ny))) \
            + 0.01 * rng.normal(size=(ny, nx))
    elif kind == 'steps':
        z = np.where(rng.random((ny, nx)) < 0.02, 3.0, 0.0) + (x > nx * rng.uniform(.3, .7)) * 5.0 \
            + 0.05 * rng.normal(size=(ny, nx))
    elif kind == 'ties':
        z = rng.integers(-3, 4, size=(ny, nx)).astype(float)
        z.flat[0], z.flat[-1] = -3.0, 4.0
    elif kind == 'tilted':
        z = rng.uniform(-1, 1) * x + rng.uniform(-1, 1) * y + rng.normal(size=(ny, nx)) * 0.2
    elif kind == 'rough':
        z = np.cumsum(np.cumsum(rng.normal(size=(ny, nx)), 0), 1)
    else:
        z = rng.normal(size=(ny, nx)) * 0.1
        for _ in range(3):
            z[rng.integers(ny), rng.integers(nx)] += rng.choice([-1, 1]) * rng.uniform(3, 30)
    amp = float(AMPLITUDES[rng.integers(len(AMPLITUDES))])
    off = float([0.0, 0.0, 1.5, -70.0, 1e3][rng.integers(5)])
    z = z * amp + (off if 1e-4 < amp < 1e4 else off * amp)
    return np.ascontiguousarray(z), kind


FORCED = []


class forced:
    """Within this context surfaces generated without an explicit shape (and profiles) have the given size."""

    def __init__(self, *size):
        self.size = size

    def __enter__(self):
        FORCED.append(self.size)

    def __exit__(self, *a):
        FORCED.pop()


def large_size(rng):
    """Sizes beyond typical block sizes and buffer limits: long and thin ones, and more than a million points."""
    r = rng.random()
    if r < 0.7:
        n = int(2 ** rng.integers(8, 13) * rng.choice([1, 1, 1, 2, 3])) + int(rng.integers(-1, 4)) if rng.random() < 0.5 \
            else int(rng.integers(1, 6)) * 1000 + int(rng.integers(-1, 4))
        m = int(rng.integers(3, 9))
        return (n, m) if rng.random() < 0.5 else (m, n)
    if r < 0.9:
        return int(rng.integers(250, 700)), int(rng.integers(250, 700))
    return int(rng.integers(1000, 1100)), int(rng.integers(1001, 1100))


def huge_size(rng):
    """Several million points."""
    if rng.random() < 0.7:
        return int(rng.integers(1500, 2300)), int(rng.integers(1500, 2300))
    n, m = int(rng.integers(600000, 1200000)), int(rng.integers(3, 5))
    return (n, m) if rng.random() < 0.5 else (m, n)


def shape(rng, lo=3, hi=48):
    if FORCED and len(FORCED[-1]) == 2:
        return FORCED[-1]
    r = rng.random()
    if r < 0.15:
        n = int(rng.integers(lo, hi))
        return n, n
    if r < 0.25:
        return int(rng.integers(lo, lo + 4)), int(rng.integers(lo, hi))
    if r < 0.35:
        return int(rng.integers(lo, hi)), int(rng.integers(lo, lo + 4))
    return int(rng.integers(lo, hi)), int(rng.integers(lo, hi))


def nan_mask(rng, ny, nx):
    r = rng.integers(4)
    m = np.zeros((ny, nx), bool)
    if r == 0:
        m[rng.integers(ny), rng.integers(nx)] = True
    elif r == 1:
        m |= rng.random((ny, nx)) < rng.uniform(0.02, 0.3)
    elif r == 2:
        y0, x0 = int(rng.integers(0, ny)), int(rng.integers(0, nx))
        m[y0:y0 + max(1, ny // 4), x0:x0 + max(1, nx // 4)] = True
    else:
        m[:, 0] = True
        m[0, 0] = False
    if m.all() or (~m).sum() < 4:
        m[:] = False
    if not m.any():
        m[rng.integers(ny), rng.integers(nx)] = True
    return m


def surface(rng, lo=3, hi=48, kind=None, nan=False, equal=None, shape_=None, order=None):
    """Returns (Surface, description)."""
    ny, nx = shape_ or shape(rng, lo, hi)
    z, kind = heights(rng, ny, nx, kind)
    if nan:
        z[nan_mask(rng, ny, nx)] = np.nan
    if order is None:
        order = 'F' if rng.random() < 0.1 else 'C'
    z = np.array(z, order=order)
    sx, sy = steps(rng, equal)
    s = Surface(z, sx, sy)
    return s, dict(kind=kind, shape=[ny, nx], step=[sx, sy], nan=int(np.isnan(z).sum()),
                   z0=float(np.nan_to_num(z.flat[-1])))


def profile(rng, lo=5, hi=200, nan=False, kind=None):
    n = int(rng.integers(lo, hi))
    if FORCED:
        n = max(FORCED[-1])
    z, kind = heights(rng, 2, n, kind)
    z = z[0].copy()
    if nan:
        z[nan_mask(rng, 1, n)[0]] = np.nan
        if np.isnan(z).all():
            z[:3] = 1.0
        if not np.isnan(z).any():
            z[int(rng.integers(n))] = np.nan
    st = float([0.1, 0.5, 1.0, 0.37][rng.integers(4)])
    return Profile(z, st), dict(kind=kind, n=n, step=st, nan=int(np.isnan(z).sum()), z0=float(np.nan_to_num(z[-1])))


def grating(rng, ny, nx, theta_deg, period, step, amp=1.0, noise=0.0, phase=None, step_y=None):
    """Sinusoidal grating whose wave vector points at theta (degree, x to the right, y (rows) downwards)."""
    step_y = step if step_y is None else step_y
    t = np.deg2rad(theta_deg)
    y, x = np.mgrid[:ny, :nx]
    u = (x * step * np.cos(t) + y * step_y * np.sin(t))
    ph = rng.uniform(0, 2 * np.pi) if phase is None else phase
    z = amp * np.sin(2 * np.pi * u / period + ph)
    if noise:
        z = z + noise * rng.normal(size=z.shape)
    return z


def clone(s):
    """A fresh object on the same samples, built through the public constructor."""
    if isinstance(s, Profile):
        return Profile(np.array(s.data), s.step, s.length_um)
    return Surface(np.array(s.data), s.step_x, s.step_y)


def snap(s):
    """Everything observable of an object's state, deep-copied."""
    if isinstance(s, Profile):
        return dict(data=np.array(s.data), step=s.step, length=s.length_um)
    return dict(data=np.array(s.data), step_x=s.step_x, step_y=s.step_y, width=s.width_um, height=s.height_um,
                size=tuple(s.size), metadata=repr(s.metadata),
                layers={k: np.array(v.data) for k, v in s.image_layers.items()})


def snap_diff(a, b):
    """Name of the first component in which two snapshots differ, or None."""
    if a.keys() != b.keys():
        return 'keys'
    for k in a:
        if k == 'layers':
            if list(a[k]) != list(b[k]):
                return 'layer names'
            for n in a[k]:
                x, y = a[k][n], b[k][n]
                if x.shape != y.shape or x.dtype != y.dtype or not np.array_equal(x, y):
                    return f'image layer {n}'
        elif k == 'data':
            x, y = a[k], b[k]
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=True):
                return 'height data'
        elif a[k] != b[k]:
            return k
    return None
