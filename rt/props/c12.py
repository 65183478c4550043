"""C12: discipline about non-measured points."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ops
from rt.core import Stage

ID = 'C12'
RULE = ('Surfaces and profiles with single, scattered, block-wise and edge holes; every parameter and operation is called on '
        'them; the mask of non-measured points before and after each call is compared with the one the contract predicts.')
ASSUMPTIONS = ['Samples that coincide with a threshold within 1e-9 of the height range may fall on either side.',
               'Nearest neighbours may be determined in data points or in physical distance.']
REQUIRED = {'event:refused': 3000, 'event:kept': 1500, 'event:outliers': 200, 'event:threshold': 200, 'event:filled': 200,
            'event:statistics': 100}

NAN_OK = {'min', 'max', 'mean', 'median', 'std', 'projected_area', 'has_missing_points', 'size', 'width_um', 'height_um',
          'length_um', 'data', 'profile', 'vprofile', 'mean-of-shape'}
KEEP = {'center', 'zero', 'invert', 'level', 'detrend_polynomial', 'stepheight_level'}


def make(case, big=False):
    rng = case.rng
    if rng.random() < 0.3:
        o, d = gen.profile(rng, 10, 120, nan=True)
        prof = True
    else:
        o, d = gen.surface(rng, 5, 26, nan=True)
        prof = False
    case.note(object='profile' if prof else 'surface', **d)
    return o, prof


def refuse(case):
    """Parameters and operations that need complete data refuse, whatever was read before."""
    rng = case.rng
    o, prof = make(case)
    if rng.random() < 0.4:
        # the values were available before a point got lost
        full = gen.clone(o)
        full.fill_nonmeasured(inplace=True)
        reads = ops.profile_reads(rng, full) if prof else ops.surface_reads(rng, full)
        for f in reads:
            ops.evaluate(f, full)
        full[tuple(int(rng.integers(n)) for n in full.data.shape)] = np.nan
        o = full
    before = gen.snap(o)
    reads = ops.profile_reads(rng, o) if prof else ops.surface_reads(rng, o, heavy=True)
    for f in [reads[i] for i in rng.permutation(len(reads))]:
        if f.base in NAN_OK:
            continue
        case.event('refused', f.base)
        case.raises(f'{f.label} on a {"profile" if prof else "surface"} with non-measured points', ValueError, lambda: f(o))
    for op in (ops.profile_ops(rng, o) if prof else ops.surface_ops(rng, o)):
        if op.needs_full:
            inplace = rng.random() < 0.5
            case.event('refused', op.label)
            case.raises(f'{op.label} with non-measured points', ValueError, lambda: op(o, inplace))
    if not prof:
        case.raises('plot_autocorrelation with non-measured points', ValueError, o.plot_autocorrelation)
        case.raises('plot_fourier_transform with non-measured points', ValueError, o.plot_fourier_transform)
    case.raises('both filters with non-measured points', ValueError, lambda: o.filter('both', 5.0))
    diff = gen.snap_diff(before, gen.snap(o))
    case.check(diff is None, f'refused calls changed the {diff}')


def averaged(rng, o):
    """(what, heights of an averaged profile, the samples it is averaged from)"""
    for what, a, step, get in (('averaged row profile', o.data, o.step_y, o.get_horizontal_profile),
                               ('averaged column profile', o.data.T, o.step_x, o.get_vertical_profile)):
        k = int(rng.choice([3, 5, 7]))
        k = min(k, (a.shape[0] - 1) // 2 * 2 + 1)
        i = int(rng.integers(k // 2, a.shape[0] - k // 2))
        yield what, np.array(get(i * step, average=k).data), np.array(a[i - k // 2:i + k // 2 + 1])


def keep(case):
    rng = case.rng
    o, prof = make(case)
    hole = np.isnan(o.data)
    case.check(bool(o.has_missing_points), 'has_missing_points with holes')
    for op in (ops.profile_ops(rng, o) if prof else ops.surface_ops(rng, o)):
        if op.method not in KEEP and op.method not in ('crop', 'zoom'):
            continue
        try:
            r = op(gen.clone(o), bool(rng.random() < 0.5))
        except ValueError:
            if op.method in KEEP:
                raise
            continue
        case.event('kept', op.method)
        if op.method in KEEP:
            case.same(f'{op.label}: non-measured points', np.isnan(r.data), hole)
        else:
            # origin of the window by brute force: the result is a contiguous block of the source
            full = np.array(o.data)
            sub = np.array(r.data)
            ok = False
            win = np.lib.stride_tricks.sliding_window_view(full, sub.shape)
            flat = win.reshape(-1, *sub.shape)
            for w in flat:
                if np.array_equal(w, sub, equal_nan=True):
                    ok = True
                    break
            case.check(ok, f'{op.label}: heights and non-measured points are those of a region of the source')
    # exact behaviour of the element-wise operations at measured points
    z = np.array(o.data)[~hole]
    s = np.max(np.abs(z)) + 1e-300
    case.close('center', o.center().data[~hole], z - z.mean(), rtol=0, atol=1e-9 * s)
    case.close('zero', o.zero().data[~hole], z - z.min(), rtol=0, atol=1e-9 * s)
    inv = o.invert().data[~hole]
    case.close('invert mirrors the heights', np.diff(inv), -np.diff(z), rtol=0, atol=1e-9 * s)
    if not prof:
        y, x = int(rng.integers(o.size.y)), int(rng.integers(o.size.x))
        case.same('row profile', o.get_horizontal_profile(y * o.step_y).data, o.data[y])
        case.same('column profile', o.get_vertical_profile(x * o.step_x).data, o.data[:, x])
        for what, got, w in averaged(rng, o):
            # a point of an averaged profile is measured only if all the points it is averaged from are
            case.same(what + ': non-measured points', np.isnan(got), np.isnan(w).any(axis=0))
            ok = ~np.isnan(got)
            if ok.any():
                case.close(what, got[ok], w.mean(axis=0)[ok], rtol=1e-9, atol=1e-9 * s)
        case.same('slice', o[1:4, 1:].data, o.data[1:4, 1:])
        # sums with holes
        case.same('sum keeps holes', np.isnan((o + o).data), hole)
        case.same('offset keeps holes', np.isnan((o + 1.5).data), hole)
    case.event('statistics')
    case.close('min', o.min(), z.min())
    case.close('max', o.max(), z.max())
    case.close('mean', o.mean(), z.mean(), atol=1e-12 * s)
    case.close('median', o.median(), np.median(z), atol=1e-12 * s)
    case.close('std', o.std(), z.std(), atol=1e-9 * s)


def outliers(case):
    rng = case.rng
    nan = rng.random() < 0.6
    if rng.random() < 0.3:
        o, d = gen.profile(rng, 10, 150, nan=nan)
    else:
        o, d = gen.surface(rng, 5, 30, nan=nan)
    z = np.array(o.data)
    if rng.random() < .15:      # plateaus: more than half of the heights agree
        ok = ~np.isnan(z)
        z[ok & (rng.random(z.shape) < rng.uniform(.4, .9))] = z[ok][0]
        o = type(o)(z.copy(), *([o.step] if z.ndim == 1 else [o.step_x, o.step_y]))
    hole = np.isnan(z)
    v = z[~hole]
    default = rng.random() < 0.2
    n = 3.0 if default else float(rng.uniform(0.3, 4))
    method = ('mean', 'median')[rng.integers(2)]
    case.note(limit=n, method=method, **d)
    case.event('outliers', method)
    r = o.remove_outliers() if default and method == 'mean' else o.remove_outliers(n=n, method=method)
    got = np.isnan(r.data)
    if method == 'mean':
        dist, lim = np.abs(z - v.mean()), n * v.std()
    else:
        dist = np.abs(z - np.median(v))
        lim = n * np.median(dist[~hole])
    eps = 1e-9 * (np.ptp(v) + 1e-3 * np.max(np.abs(v)))
    with np.errstate(invalid='ignore'):
        must = hole | (dist > lim + eps)
        may = hole | ~(dist <= lim - eps)
    case.check(bool(np.all(got[must])), 'an outlier (or hole) was kept', n=n, method=method)
    case.check(bool(np.all(may[got])), 'a sample that is no outlier was removed', n=n, method=method)
    case.same('remaining heights', np.array(r.data)[~got], z[~got])
    case.raises('unknown method', ValueError, lambda: o.remove_outliers(n=n, method='mode'))


def threshold(case):
    rng = case.rng
    nan = rng.random() < 0.6
    if rng.random() < 0.3:
        o, d = gen.profile(rng, 10, 150, nan=nan)
    else:
        o, d = gen.surface(rng, 5, 30, nan=nan)
    z = np.array(o.data)
    hole = np.isnan(z)
    y = np.sort(z[~hole])[::-1]
    n = y.size
    k = rng.integers(4)
    if k == 0:
        arg, up, lo = None, 0.5, 0.5
    elif k == 1:
        up = lo = float(rng.uniform(0.1, 49))
        arg = up
    else:
        up, lo = float(rng.uniform(0, 70)), float(rng.uniform(0, 29))
        if rng.random() < 0.5:
            up, lo = lo, up
        arg = [(up, lo), [up, lo], np.array([up, lo])][rng.integers(3)]
    case.note(upper=up, lower=lo, **d)
    case.event('threshold')
    r = o.threshold() if arg is None else o.threshold(arg)
    got = np.isnan(r.data)
    case.check(bool(np.all(got[hole])), 'a hole disappeared')
    case.same('remaining heights', np.array(r.data)[~got], z[~got])
    # admissible cut heights: the sample whose material ratio (rank/n) is closest to the threshold, or its neighbours
    # within one rank (discretisation of the material ratio)
    iu = up / 100 * n - 1
    il = (1 - lo / 100) * n - 1
    rank = lambda i: int(np.clip(i, 0, n - 1))
    hi_cut = y[rank(np.floor(iu - 1))], y[rank(np.ceil(iu + 1))]       # highest, lowest admissible upper cut
    lo_cut = y[rank(np.floor(il - 1))], y[rank(np.ceil(il + 1))]
    with np.errstate(invalid='ignore'):
        must = hole | (z > hi_cut[0]) | (z < lo_cut[1])
        may = hole | (z > hi_cut[1]) | (z < lo_cut[0])
    case.check(bool(np.all(got[must])), 'a sample outside of the threshold was kept')
    case.check(bool(np.all(may[got])), 'a sample within the threshold was removed')
    case.raises('thresholds above 100 %', ValueError, lambda: o.threshold((60, 45)))
    case.raises('threshold of 50 %', ValueError, lambda: o.threshold(50))


def fill(case):
    rng = case.rng
    o, prof = make(case)
    z = np.array(o.data)
    hole = np.isnan(z)
    method = ('nearest', 'default', 'linear')[rng.integers(3)]
    if method == 'linear' and (~hole).sum() < 8:
        return
    inplace = bool(rng.random() < 0.5)
    src = gen.clone(o)
    kw = {} if method == 'default' else {'method': method}
    r = src.fill_nonmeasured(inplace=inplace, **kw)
    got = np.array(r.data)
    case.event('filled', method)
    case.check(got.shape == z.shape, 'shape of the filled object')
    s = np.nanmax(np.abs(z)) + 1e-300
    if method == 'linear':
        case.close('measured heights', got[~hole], z[~hole], rtol=0, atol=1e-9 * s)
        v = got[hole]
        v = v[~np.isnan(v)]
        if v.size:
            case.check(v.min() >= np.nanmin(z) - 1e-9 * s and v.max() <= np.nanmax(z) + 1e-9 * s,
                       'interpolated heights lie between the measured ones')
        if not prof:
            ys, xs = np.nonzero(hole)
            for i, j in zip(ys, xs):
                m = ~hole
                if m[i, :j].any() and m[i, j + 1:].any() and m[:i, j].any() and m[i + 1:, j].any():
                    case.check(not np.isnan(got[i, j]), 'a hole surrounded by measured points was left', at=[int(i), int(j)])
        else:
            for i in np.flatnonzero(hole):
                l, rr = np.flatnonzero(~hole[:i]), np.flatnonzero(~hole[i + 1:])
                if l.size and rr.size:
                    a, b = l[-1], rr[0] + i + 1
                    want = z[a] + (z[b] - z[a]) * (i - a) / (b - a)
                    case.close('linear interpolation', got[i], want, rtol=0, atol=1e-9 * s)
        return
    case.same('measured heights', got[~hole], z[~hole])
    case.check(not np.isnan(got).any(), 'no hole is left')
    case.check(not bool(r.has_missing_points), 'has_missing_points after filling')
    pts = np.argwhere(~hole)
    vals = z[~hole]
    sc = [np.ones(z.ndim)]
    if not prof:
        sc.append(np.array([o.step_y, o.step_x]))
    for h in np.argwhere(hole)[:60]:
        ok = False
        for k in sc:
            dd = (((pts - h) * k) ** 2).sum(1)
            ok = ok or got[tuple(h)] in vals[dd <= dd.min() * (1 + 1e-9)]
        case.check(ok, 'the filled value is that of a nearest measured point', at=h.tolist())


STAGES = [Stage('refuse', refuse, 768, 15000), Stage('keep', keep, 2400, 54000), Stage('outliers', outliers, 3200, 72000, large=160, huge=1600),
          Stage('threshold', threshold, 3200, 72000, large=160, huge=1600), Stage('fill', fill, 3200, 60000, large=160)]
