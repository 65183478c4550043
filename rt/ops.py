"""Catalogue of the public operations and reads of Surface and Profile with randomised arguments."""
import numpy as np
from surfalize import Profile


# -- reads ----------------------------------------------------------------------------------------------------------
def _p(rng):
    return float([2.5, 5, 10, 33.3, 50, 80, 90][rng.integers(7)])


def _pq(rng):
    a, b = sorted(rng.choice([2.5, 5., 10., 20., 50., 70., 80., 95.], 2, replace=False).tolist())
    return a, b


def _call(name, *a, **k):
    def f(o):
        return getattr(o, name)(*a, **k)
    f.label = name + repr(a) + (repr(k) if k else '')
    f.base = name
    return f


SIMPLE_SURFACE = ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Sal', 'Str', 'Ssw', 'Sk', 'Spk', 'Svk', 'Spkx',
                  'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Sxp', 'Sdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc',
                  'period', 'period_x_y', 'stepheight', 'cavity_volume', 'projected_area', 'surface_area',
                  'height_parameters', 'min', 'max', 'mean', 'median', 'std', 'Std')
SIMPLE_PROFILE = ('Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt', 'Rsk', 'Rku', 'Rdq', 'Rk', 'Rpk', 'Rvk', 'Rpkx', 'Rvkx', 'Rak1',
                  'Rak2', 'Rmr1', 'Rmr2', 'Rmrk1', 'Rmrk2', 'Rxp', 'Rdc', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'min', 'max', 'mean',
                  'median', 'std')


def _prop(name):
    def f(o):
        v = getattr(o, name)
        return tuple(v) if isinstance(v, tuple) else v
    f.label = f.base = name
    return f


def _expr(label, fn):
    def f(o):
        return fn(o)
    f.label = f.base = label
    return f


def surface_reads(rng, s, heavy=False):
    r = [_call(n) for n in SIMPLE_SURFACE]
    p, (a, b) = _p(rng), _pq(rng)
    mn, mx = np.nanmin(s.data), np.nanmax(s.data)
    c = float(mn + rng.random() * (mx - mn))
    r += [_call('Vmp', p), _call('Vmp', p=p), _call('Vmc', a, b), _call('Vmc', p=a, q=b), _call('Vvv', q=b),
          _call('Vvc', a, b), _call('Vvc', p=a, q=b), _call('Vm', p), _call('Vv', p), _call('Smr', c), _call('Smc', p),
          _call('Sxp', a, b), _call('Sdc', a, b), _call('Sal', 0.3), _call('Sal', s=0.5), _call('Str', 0.3),
          _call('Str', s=0.5), _call('Std', 1), _call('Std', angle_step=2.0), _call('cavity_volume', 0.3),
          _call('cavity_volume', threshold=0.7), _call('orientation', 'fft'), _call('orientation', method='fft'),
          _prop('has_missing_points'), _prop('size'), _prop('width_um'), _prop('height_um'),
          _expr('data', lambda o: np.array(o.data)),
          _expr('apsd', lambda o: o.get_fourier_transform().angular_power_spectrum(10)),
          _expr('ft.period', lambda o: o.get_fourier_transform().period()),
          _expr('ft.orientation', lambda o: o.get_fourier_transform().orientation()),
          _expr('acf.data', lambda o: np.array(o.get_autocorrelation_function().data)),
          _expr('acf.Sal', lambda o: o.get_autocorrelation_function().Sal(0.4)),
          _expr('abbott.k', lambda o: o.get_abbott_firestone_curve().k()),
          _expr('abbott.mc', lambda o: o.get_abbott_firestone_curve().mc(p)),
          _expr('abbott.vmc(p)', lambda o: o.get_abbott_firestone_curve().vmc(p=a)),
          _expr('abbott.vmc(q)', lambda o: o.get_abbott_firestone_curve().vmc(q=a)),
          _expr('abbott.vvc(q)', lambda o: o.get_abbott_firestone_curve().vvc(q=b)),
          _expr('abbott.vvc(p)', lambda o: o.get_abbott_firestone_curve().vvc(p=b)),
          _expr('roughness', lambda o: list(o.roughness_parameters(['Sa', 'Sk', 'Sdr', 'Vmp']).values())),
          _expr('mean-of-shape', lambda o: o.data.sum()),
          _expr('profile', lambda o: np.array(o.get_horizontal_profile(0).data)),
          _expr('vprofile', lambda o: np.array(o.get_vertical_profile(0).data)),
          ]
    if heavy:
        ny, nx = s.data.shape
        r += [_call('homogeneity', ('Sa', 'Sdr'), period=min(ny * s.step_y, nx * s.step_x) / 2.5),
              _call('homogeneity', parameters=('Sa', 'Sz'), period=min(ny * s.step_y, nx * s.step_x) / 2),
              _call('depth', 4), _call('depth', nprofiles=5, sampling_width=0.3), _call('aspect_ratio'),
              _call('orientation'), _call('homogeneity')]
    return r


OPTIMISED = {'depth', 'aspect_ratio', 'orientation'}


def profile_reads(rng, s):
    r = [_call(n) for n in SIMPLE_PROFILE]
    p, (a, b) = _p(rng), _pq(rng)
    mn, mx = np.nanmin(s.data), np.nanmax(s.data)
    c = float(mn + rng.random() * (mx - mn))
    r += [_call('Rp', 2), _call('Rv', n_sections=3), _call('Rz', 1), _call('Rz', n_sections=4), _call('Vmp', p),
          _call('Vmc', a, b), _call('Vvv', b), _call('Vvc', p=a, q=b), _call('Vm', p), _call('Vv', p), _call('Rmr', c),
          _call('Rmc', p), _call('Rxp', a, b), _call('Rdc', a, b), _call('period'), _prop('has_missing_points'),
          _prop('size'), _prop('length_um'), _expr('data', lambda o: np.array(o.data)),
          _expr('roughness', lambda o: list(o.roughness_parameters(['Ra', 'Rk', 'Rz']).values()))]
    return r


def value(v):
    """Normalises a returned value to something comparable."""
    if isinstance(v, dict):
        return ('dict', tuple(v.keys()), np.array([float(x) for x in v.values()]))
    if isinstance(v, (tuple, list)):
        return tuple(np.asarray(x, dtype=float) for x in v)
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=float)
    if v is None:
        return None
    return float(v)


def evaluate(f, o):
    try:
        return 'ok', value(f(o))
    except Exception as e:
        return 'exc', type(e).__name__


def equal_values(a, b, rtol):
    if a[0] != b[0]:
        return False
    if a[0] == 'exc':
        return a[1] == b[1]
    return _eq(a[1], b[1], rtol)


def _eq(a, b, rtol):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(
            (x == y if isinstance(x, (str,)) or isinstance(y, str) else _eq(x, y, rtol)) for x, y in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.array_equal(np.isnan(a), np.isnan(b)):
        return False
    if a.size == 0:
        return True
    m = ~np.isnan(a)
    fa = np.abs(b[m & np.isfinite(b)])
    scale = fa.max() if fa.size else 0.0
    with np.errstate(all='ignore'):
        return bool(np.all((a[m] == b[m]) | (np.abs(a[m] - b[m]) <= rtol * scale + 1e-13 * rtol)))


# -- operations (inplace keyword) -------------------------------------------------------------------------------------
def _op(label, fn, needs_full=False, clean=False):
    fn.label = label
    fn.needs_full = needs_full
    return fn


def surface_ops(rng, s):
    """One randomised instance of every operation that takes `inplace`. Each is op(surface, inplace)."""
    ny, nx = s.data.shape
    ops = []

    def add(label, method, /, *a, needs_full=False, **k):
        def f(o, inplace):
            return getattr(o, method)(*a, inplace=inplace, **k)
        f.label, f.method, f.needs_full = label, method, needs_full
        ops.append(f)

    add('center', 'center')
    add('zero', 'zero')
    add('invert', 'invert')
    n = float(rng.uniform(0.8, 2.5))
    add(f'remove_outliers(n={n:.2f})', 'remove_outliers', n=n)
    add(f'remove_outliers(n={n:.2f},median)', 'remove_outliers', n=n, method='median')
    t = float(rng.uniform(1, 20))
    add(f'threshold({t:.2f})', 'threshold', t)
    add(f'threshold(({t:.2f},{t / 2:.2f}))', 'threshold', (t, t / 2))
    add('fill_nonmeasured', 'fill_nonmeasured')
    add('fill_nonmeasured(linear)', 'fill_nonmeasured', method='linear')
    add('level', 'level')
    d = int(rng.integers(1, 4))
    add(f'detrend({d})', 'detrend_polynomial', degree=d)
    ang = float(rng.uniform(-95, 95))
    add(f'rotate({ang:.1f})', 'rotate', ang, needs_full=True)
    c1 = float(rng.uniform(2, 6) * max(s.step_x, s.step_y))
    add(f'lowpass({c1:.3g})', 'filter', 'lowpass', c1, needs_full=True)
    add(f'highpass({c1:.3g})', 'filter', 'highpass', c1, needs_full=True)
    add(f'bandpass({c1:.3g})', 'filter', 'bandpass', c1, 2.5 * c1, needs_full=True)
    x0, x1 = sorted(rng.integers(0, nx, 2).tolist())
    y0, y1 = sorted(rng.integers(0, ny, 2).tolist())
    x0, y0 = min(x0, max(0, x1 - 2)), min(y0, max(0, y1 - 2))
    add(f'crop(px {x0},{x1},{y0},{y1})', 'crop', (x0, x1, y0, y1), in_units=False)
    add(f'crop(um {x0},{x1},{y0},{y1})', 'crop', (x0 * s.step_x, x1 * s.step_x, y0 * s.step_y, y1 * s.step_y))
    z = float(rng.uniform(1.1, 2.2))
    add(f'zoom({z:.2f})', 'zoom', z)
    add('stepheight_level', 'stepheight_level')
    add('align(fft)', 'align', method='fft', needs_full=True)
    add('align(x,fft)', 'align', axis='x', method='fft', needs_full=True)
    return ops


def profile_ops(rng, s):
    n = s.data.shape[0]
    ops = []

    def add(label, method, /, *a, needs_full=False, **k):
        def f(o, inplace):
            return getattr(o, method)(*a, inplace=inplace, **k)
        f.label, f.method, f.needs_full = label, method, needs_full
        ops.append(f)

    add('center', 'center')
    add('zero', 'zero')
    add('invert', 'invert')
    k = float(rng.uniform(0.8, 2.5))
    add('remove_outliers', 'remove_outliers', n=k)
    add('remove_outliers(median)', 'remove_outliers', n=k, method='median')
    t = float(rng.uniform(1, 20))
    add('threshold', 'threshold', t)
    add('fill_nonmeasured', 'fill_nonmeasured')
    add('fill_nonmeasured(linear)', 'fill_nonmeasured', method='linear')
    add('level', 'level')
    add('detrend', 'detrend_polynomial', degree=int(rng.integers(1, 4)))
    c = float(rng.uniform(2, 6) * s.step)
    add('lowpass', 'filter', 'lowpass', c, needs_full=True)
    add('highpass', 'filter', 'highpass', c, needs_full=True)
    add('bandpass', 'filter', 'bandpass', c, 2.5 * c, needs_full=True)
    x0 = int(rng.integers(0, max(1, n - 3)))
    x1 = int(rng.integers(x0 + 1, n))
    add(f'crop(px {x0},{x1})', 'crop', (x0, x1), in_units=False)
    add(f'crop(um {x0},{x1})', 'crop', (x0 * s.step, x1 * s.step))
    add('zoom', 'zoom', float(rng.uniform(1.1, 2.2)))
    return ops
