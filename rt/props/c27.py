"""C27: physical symmetries."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ref
from rt.core import Stage

ID = 'C27'
RULE = ('Random surfaces and profiles with heights on a binary lattice, so that mirroring, swapping the axes, offsets and '
        'scaling by powers of two are exact, plus decimal unit changes: every parameter of the transformed object against '
        'the transformed value of the original one; operations commute with the transformations.')
ASSUMPTIONS = ['Spectral parameters are compared on surfaces with one dominating wave.',
               'The developed area depends on the diagonal used to split a cell and is not compared under mirroring.',
               'The position of the equivalence line among equally steep sections may depend on rounding (1 % tolerance '
               'under offset and decimal scaling).']
REQUIRED = {'event:surface': 100, 'event:profile': 80, 'event:wave': 60, 'event:ops': 150, 'event:structure': 150}

# exponents of the height unit and the lateral unit
DIM = {n: (1, 0) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2', 'Sxp', 'Sdc', 'Vmp', 'Vmc',
                           'Vvv', 'Vvc', 'std', 'min', 'max', 'mean', 'median')}
DIM.update({n: (0, 0) for n in ('Ssk', 'Sku', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Str')})
DIM.update(Sdq=(1, -1), Sal=(0, 1), projected_area=(0, 2))
LEVELS = {'min', 'max', 'mean', 'median'}
LINE = {'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2'}
PDIM = {n: (1, 0) for n in ('Ra', 'Rq', 'Rp', 'Rv', 'Rz', 'Rt', 'Rk', 'Rpk', 'Rvk', 'Rpkx', 'Rvkx', 'Rak1', 'Rak2', 'Rxp', 'Rdc', 'Vmp', 'Vmc',
                            'Vvv', 'Vvc', 'std', 'min', 'max', 'mean', 'median')}
PDIM.update({n: (0, 0) for n in ('Rsk', 'Rku', 'Rmr1', 'Rmr2', 'Rmrk1', 'Rmrk2')})
PDIM.update(Rdq=(1, -1))
PLINE = {'R' + n[1:] for n in LINE}


def lattice(z, bits=10):
    z = np.asarray(z, float)
    sd = z.std()
    z = (z - z.mean()) / (sd if sd > 0 else 1.0)
    return np.round(np.clip(z, -60, 60) * 2 ** bits) / 2 ** bits


def read(o, dims, args):
    out = {}
    for n in dims:
        out[n] = float(getattr(o, n)())
    for name, a, d in args:
        out[name + repr(a)] = float(getattr(o, name)(*a))
    return out


def compare(case, what, base, got, dims, kz=1.0, kl=1.0, off=0.0, exact=True, line=(), skip=()):
    """got = parameters of the object with heights kz*z + off and lateral lengths scaled by kl."""
    hr = base['max'] - base['min']
    for n, v in got.items():
        if n in skip or (line is None and n in LINE | PLINE):
            continue
        a, b = dims[n]
        want = base[n] * kz ** a * kl ** b + (off if n in LEVELS or n.startswith(('Smc', 'Rmc')) else 0.0)
        size = {(1, 0): hr * kz, (0, 0): 100.0 if n in LINE | PLINE else 1.0}.get((a, b), abs(want))
        tol = 1e-9 if exact or not line or n not in line else 1e-2
        if not exact and n in LINE | PLINE and n[1:] not in ('k', 'pkx', 'vkx'):
            continue         # ratios jump at tied heights, areas are snapped to the classes of the curve (see C07)
        case.close(f'{n} ({what})', v, want, rtol=1e-9, atol=tol * max(size, abs(off) * 1e-3))


def line_of(z, names):
    """The parameters of the equivalence line, if the position of the line is unambiguous (else everything is skipped)."""
    L = ref.Abbott(z).lines()
    return names if np.ptp(L, axis=0).max() < 1e-3 * np.ptp(z) else None


def steps2(rng):
    sx = float(rng.choice([0.25, 0.5, 1.0, 2.0]))
    return sx, sx * float(rng.choice([1, 1, 2, 0.5]))


def surface(case):
    rng = case.rng
    ny, nx = gen.shape(rng, 4, 40)
    z, kind = gen.heights(rng, ny, nx)
    z = lattice(z)
    if np.ptp(z) < 0.1:
        return
    sx, sy = steps2(rng)
    case.note(shape=[ny, nx], kind=kind, step=[sx, sy], sum=float(z.sum()))
    case.event('surface')
    p, q = sorted(float(v) for v in rng.choice([5, 10, 20, 45, 60, 80, 95], 2, replace=False))
    s = float(rng.choice([0.1, 0.3, 0.5]))
    args = [('Vmp', (p,), (1, 0)), ('Vvv', (q,), (1, 0)), ('Vmc', (p, q), (1, 0)), ('Vvc', (p, q), (1, 0)), ('Sxp', (p, q), (1, 0)),
            ('Sdc', (p, q), (1, 0)), ('Smc', (p,), (1, 0)), ('Sal', (s,), (0, 1)), ('Str', (s,), (0, 0)), ('Vm', (p,), (1, 0)), ('Vv', (q,), (1, 0))]
    dims = dict(DIM)
    dims.update({n + repr(a): d for n, a, d in args})
    base = read(Surface(z, sx, sy), DIM, args)
    mk = lambda w, a=sx, b=sy: read(Surface(np.ascontiguousarray(w), a, b), DIM, args)
    compare(case, 'mirrored in x', base, mk(z[:, ::-1]), dims)
    compare(case, 'mirrored in y', base, mk(z[::-1]), dims)
    compare(case, 'axes swapped', base, mk(z.T, sy, sx), dims)
    off = float(rng.choice([64.0, -1024.0, 3.5]))
    compare(case, 'offset', base, mk(z + off), dims, off=off, exact=False, line=line_of(z, LINE))
    k = float(rng.choice([4.0, 0.0078125, 1024.0, 2.0 ** -30, 2.0 ** 20]))
    compare(case, 'heights scaled', base, mk(z * k), dims, kz=k)
    l = float(rng.choice([8.0, 0.03125, 2.0 ** -16, 2.0 ** 12]))
    compare(case, 'lengths scaled', base, mk(z, sx * l, sy * l), dims, kl=l)
    compare(case, 'unit changed', base, mk(z * 1000.0, sx * 1000.0, sy * 1000.0), dims, kz=1000.0, kl=1000.0, exact=False, line=line_of(z, LINE),
            skip=('Sal', 'Str', 'Sal' + repr((s,)), 'Str' + repr((s,))))
    # developed area: invariant under a common change of the unit and an offset
    a = Surface(z, sx, sy)
    b = Surface(z * k + off, sx * k, sy * k)
    case.close('Sdr (unit changed)', b.Sdr(), a.Sdr(), rtol=1e-7, atol=1e-9)
    case.close('surface area (unit changed)', b.surface_area(), a.surface_area() * k * k, rtol=1e-9)
    case.close('surface area (axes swapped)', Surface(np.ascontiguousarray(z.T), sy, sx).surface_area(), a.surface_area(), rtol=1e-9)
    # turned upside down
    n = mk(-z)
    hr = base['Sz']
    for u, v, f, ref in (('Sp', 'Sv', 1, hr), ('Sv', 'Sp', 1, hr), ('Sz', 'Sz', 1, hr), ('Sa', 'Sa', 1, hr), ('Sq', 'Sq', 1, hr), ('Ssk', 'Ssk', -1, 1),
                         ('Sku', 'Sku', 1, 1), ('Sdq', 'Sdq', 1, base['Sdq']), ('max', 'min', -1, hr), ('mean', 'mean', -1, hr),
                         ('median', 'median', -1, hr), ('Sal', 'Sal', 1, base['Sal']), ('Str', 'Str', 1, 1)):
        case.close(f'{u} (upside down)', n[u], f * base[v], rtol=1e-9, atol=1e-9 * ref)
    o = Surface(-z, sx, sy)
    case.close('Smc (upside down)', o.Smc(100 - p), -base['Smc' + repr((p,))], rtol=0, atol=1e-3 * hr + 2 * quantum(z, p))


def quantum(z, p):
    """Height difference of the curve over two of its classes around p."""
    v = np.quantile(z, np.clip(1 - (p + np.array([-.03, .03])) / 100, 0, 1))
    return abs(v[0] - v[1])


def profile(case):
    rng = case.rng
    n = 5 * int(rng.integers(3, 60))
    z = lattice(gen.heights(rng, 2, n)[0][0])
    if np.ptp(z) < 0.1:
        return
    st = float(rng.choice([0.25, 0.5, 1.0, 2.0]))
    case.note(n=n, step=st, sum=float(z.sum()))
    case.event('profile')
    p, q = sorted(float(v) for v in rng.choice([5, 10, 20, 45, 60, 80, 95], 2, replace=False))
    args = [('Vmp', (p,), (1, 0)), ('Vmc', (p, q), (1, 0)), ('Vvc', (p, q), (1, 0)), ('Rxp', (p, q), (1, 0)), ('Rdc', (p, q), (1, 0)),
            ('Rmc', (p,), (1, 0)), ('Rp', (1,), (1, 0)), ('Rz', (5,), (1, 0)), ('Rv', (1,), (1, 0)), ('Rz', (1,), (1, 0))]
    dims = dict(PDIM)
    dims.update({m + repr(a): d for m, a, d in args})
    mk = lambda w, a=st: read(Profile(np.ascontiguousarray(w), a), PDIM, args)
    base = mk(z)
    compare(case, 'mirrored', base, mk(z[::-1]), dims)
    off = float(rng.choice([64.0, -1024.0, 3.5]))
    compare(case, 'offset', base, mk(z + off), dims, off=off, exact=False, line=line_of(z, PLINE))
    k = float(rng.choice([4.0, 0.0078125, 1024.0, 2.0 ** -30, 2.0 ** 20]))
    compare(case, 'heights scaled', base, mk(z * k), dims, kz=k)
    l = float(rng.choice([8.0, 0.03125, 2.0 ** -16, 2.0 ** 12]))
    compare(case, 'lengths scaled', base, mk(z, st * l), dims, kl=l)
    m = mk(-z)
    hr = base['Rt']
    for u, v, f, ref in (('Rp', 'Rv', 1, hr), ('Rv', 'Rp', 1, hr), ('Rz', 'Rz', 1, hr), ('Ra', 'Ra', 1, hr), ('Rq', 'Rq', 1, hr), ('Rt', 'Rt', 1, hr),
                         ('Rsk', 'Rsk', -1, 1), ('Rku', 'Rku', 1, 1), ('Rdq', 'Rdq', 1, base['Rdq']), ('max', 'min', -1, hr), ('median', 'median', -1, hr)):
        case.close(f'{u} (upside down)', m[u], f * base[v], rtol=1e-9, atol=1e-9 * ref)


def turn(a, b):
    return abs((a - b + 90) % 180 - 90)


def wave(case):
    rng = case.rng
    nx, ny = int(rng.integers(30, 110)), int(rng.integers(30, 110))
    sx, sy = steps2(rng)
    th = float(rng.uniform(0, 180))
    per = float(rng.uniform(8 * max(sx, sy), min(nx * sx, ny * sy) / 2.5)) if min(nx * sx, ny * sy) / 2.5 > 8.5 * max(sx, sy) else 8 * max(sx, sy)
    z = lattice(gen.grating(rng, ny, nx, th, per, sx, step_y=sy, noise=0.1), 16)
    # one pair of peaks has to dominate, away from the borders of the spectrum
    F = np.abs(np.fft.fft2(z - z.mean()))
    top = np.sort(F.ravel())[::-1]
    if top[2] > top[0] * (1 - 1e-5):
        return
    s = Surface(z, sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy], direction=th, period=per)
    case.event('wave')
    o, p, pxy, std, w = s.orientation('fft'), s.period(), s.period_x_y(), s.Std(), s.Ssw()
    for name, q, a, b, f, swap in (('mirrored in x', z[:, ::-1], sx, sy, lambda v: -v, False), ('mirrored in y', z[::-1], sx, sy, lambda v: -v, False),
                                   ('axes swapped', z.T, sy, sx, lambda v: 90 - v, True), ('turned by 180 degrees', z[::-1, ::-1], sx, sy, lambda v: v, False),
                                   ('upside down', -z, sx, sy, lambda v: v, False), ('offset', z + 64, sx, sy, lambda v: v, False),
                                   ('scaled', z * float(2.0 ** rng.integers(-30, 10)), sx, sy, lambda v: v, False)):
        t = Surface(np.ascontiguousarray(q), a, b)
        case.within(f'orientation ({name})', turn(t.orientation('fft'), f(o)), 0, 1e-6)
        case.close(f'period ({name})', t.period(), p, rtol=1e-9)
        case.close(f'Ssw ({name})', t.Ssw(), w, rtol=1e-9)
        case.close(f'period_x_y ({name})', t.period_x_y(), pxy[::-1] if swap else pxy, rtol=1e-9)
        case.within(f'Std ({name})', turn(t.Std(), f(std)), 0, 1.01)
    k = float(rng.choice([8.0, 0.0625]))
    t = Surface(z, sx * k, sy * k)
    case.within('orientation (lengths scaled)', turn(t.orientation('fft'), o), 0, 1e-6)
    case.close('period (lengths scaled)', t.period(), p * k, rtol=1e-9)
    case.close('Std (lengths scaled)', t.Std(), std, rtol=0, atol=1e-6)
    # depth and homogeneity
    c, sn = abs(np.cos(np.deg2rad(th))), abs(np.sin(np.deg2rad(th)))
    L = min(nx * sx, ny * sy) / float(rng.uniform(2.2, 4))
    if min(int(L / sx), int(L / sy)) >= 6:
        h = s.homogeneity(('Sa', 'Sz'), L)
        for name, t, q in (('offset', Surface(z + 64, sx, sy), L), ('heights scaled', Surface(z * float(2.0 ** rng.integers(-30, 8)), sx, sy), L), ('lengths scaled', Surface(z, sx * k, sy * k), L * k),
                           ('axes swapped', Surface(np.ascontiguousarray(z.T), sy, sx), L)):
            case.close(f'homogeneity ({name})', t.homogeneity(('Sa', 'Sz'), q), h, rtol=0, atol=1.01e-4)


def ops(case):
    """Operations commute with mirroring, swapping the axes, offsets and scaling."""
    rng = case.rng
    ny, nx = gen.shape(rng, 5, 32)
    z, kind = gen.heights(rng, ny, nx)
    z = lattice(z)
    if np.ptp(z) < 0.1:
        return
    sx, sy = steps2(rng)
    case.note(shape=[ny, nx], kind=kind, step=[sx, sy], sum=float(z.sum()))
    case.event('ops')
    tol = 1e-8 * np.ptp(z)
    c = float(rng.uniform(1.2, 6)) * max(sx, sy)
    c2 = c * float(rng.uniform(1.5, 4))
    deg = int(rng.integers(1, 4))
    out = (float(rng.choice([1.5, 2, 3])), str(rng.choice(['mean', 'median'])))
    th = float(rng.choice([0.5, 2, 10])), float(rng.choice([0.5, 5]))
    mode = str(rng.choice(['reflect', 'nearest', 'mirror']))
    ft = str(rng.choice(['highpass', 'lowpass']))
    catalogue = {
        'center': (lambda o, q: o.center(), 'flat'), 'zero': (lambda o, q: o.zero(), 'flat'), 'level': (lambda o, q: o.level(), 'flat'),
        'invert': (lambda o, q: o.invert(), None), 'threshold': (lambda o, q: o.threshold(th), 'level'),
        'remove_outliers': (lambda o, q: o.remove_outliers(*out), 'level'),
        'filter ' + ft: (lambda o, q: o.filter(ft, c * q, endeffect_mode=mode), 'flat' if ft == 'highpass' else 'level'),
        'filter bandpass': (lambda o, q: o.filter('bandpass', c * q, c2 * q), 'flat')}
    if min(ny, nx) > deg + 2:
        catalogue['detrend'] = (lambda o, q: o.detrend_polynomial(deg), 'flat')
    k, l, off = float(rng.choice([8.0, 0.125])), float(rng.choice([4.0, 0.25])), float(rng.choice([16.0, -64.0]))
    for name, (op, shift) in catalogue.items():
        mean = np.mean if out[1] == 'mean' else np.median
        if name == 'remove_outliers' and np.min(np.abs(np.abs(z - mean(z)) - out[0] * z.std())) < 1e-9:
            continue
        try:
            r = op(Surface(z, sx, sy), 1.0)
        except (ValueError, MemoryError) as e:
            bad = type(e)
            for w, a, b in ((z[:, ::-1], sx, sy), (z.T, sy, sx)):
                case.raises(f'{name} of a transformed surface', bad, lambda: op(Surface(np.ascontiguousarray(w), a, b), 1.0))
            continue
        b = r.data
        for tn, w, a2, b2, want, q in (('mirrored in x', z[:, ::-1], sx, sy, b[:, ::-1], 1.0), ('mirrored in y', z[::-1], sx, sy, b[::-1], 1.0),
                                       ('axes swapped', z.T, sy, sx, b.T, 1.0), ('heights scaled', z * k, sx, sy, b * k, 1.0),
                                       ('lengths scaled', z, sx * l, sy * l, b, l), ('offset', z + off, sx, sy, b + (off if shift == 'level' else 0.0), 1.0)):
            if tn == 'offset' and shift is None:
                continue
            t = op(Surface(np.ascontiguousarray(w), a2, b2), q)
            case.close(f'{name} ({tn})', t.data, want, rtol=0, atol=tol * max(1.0, k if tn == 'heights scaled' else 1.0), args=[c, c2, deg, out, th, mode])
            case.close(f'steps after {name} ({tn})', [t.step_x, t.step_y], [a2, b2], rtol=1e-12)


def structure(case):
    """Step height, cavity volume and depth follow the units (also nanometre steps and heights given in metres)."""
    rng = case.rng
    ny, nx = int(rng.integers(20, 60)), int(rng.integers(20, 60))
    sx, sy = steps2(rng)
    h = float(rng.uniform(2, 20))
    z = np.where(np.arange(nx) % int(rng.integers(8, 16)) < 4, h, 0.0) + np.zeros((ny, 1))
    z = np.round((z + rng.normal(0, 0.05, (ny, nx))) * 2 ** 12) / 2 ** 12
    if rng.random() < 0.3:
        z = z.T.copy()
        ny, nx = nx, ny
    case.note(shape=[ny, nx], step=[sx, sy], height=h, sum=float(z.sum()))
    case.event('structure')
    s = Surface(z, sx, sy)
    hgt, vol, c2 = s.stepheight(), s.cavity_volume(), s.cavity_volume(0.3)
    case.check(0.9 * h < hgt < 1.1 * h, 'step height of a step', got=hgt)
    for k in (2.0 ** -int(rng.integers(1, 40)), 2.0 ** int(rng.integers(1, 30)), 1e-3, 1e-6, 1e-9):
        t = Surface(z * k, sx, sy)
        # the classes of the histogram are assigned by rounded borders when the factor is no power of two
        tol = 1e-9 if np.frexp(k)[0] == 0.5 else 1e-3
        case.close('step height (heights scaled)', t.stepheight(), hgt * k, rtol=tol, factor=k)
        case.close('cavity volume (heights scaled)', t.cavity_volume(), vol * k, rtol=tol * 10, factor=k)
        case.close('cavity volume with threshold (heights scaled)', t.cavity_volume(0.3), c2 * k, rtol=tol * 10, factor=k)
    l = 2.0 ** int(rng.integers(-12, 12))
    t = Surface(z, sx * l, sy * l)
    case.close('step height (lengths scaled)', t.stepheight(), hgt, rtol=1e-9)
    case.close('cavity volume (lengths scaled)', t.cavity_volume(), vol * l * l, rtol=1e-9)
    for name, w, a, b in (('mirrored in x', z[:, ::-1], sx, sy), ('mirrored in y', z[::-1], sx, sy), ('axes swapped', z.T, sy, sx)):
        t = Surface(np.ascontiguousarray(w), a, b)
        case.close(f'step height ({name})', t.stepheight(), hgt, rtol=1e-9)
        case.close(f'cavity volume ({name})', t.cavity_volume(), vol, rtol=1e-9)
    off = float(rng.choice([64.0, -512.0]))
    case.close('step height (offset)', Surface(z + off, sx, sy).stepheight(), hgt, rtol=0, atol=1e-3 * h)
    case.close('step height (upside down)', Surface(-z, sx, sy).stepheight(), hgt, rtol=0, atol=0.02 * h)


STAGES = [Stage('surface', surface, 160, 3000, large=40), Stage('profile', profile, 120, 2500), Stage('wave', wave, 300, 5000), Stage('ops', ops, 500, 8000),
          Stage('structure', structure, 300, 5000)]
