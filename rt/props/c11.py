"""C11: levelling and polynomial detrending."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C11'
RULE = ('Random surfaces and profiles with and without non-measured points plus a random plane/polynomial; result and trend '
        'against an independent least-squares fit (orthogonalised basis), orthogonality of the residual, removal of exact '
        'forms, repetition.')
ASSUMPTIONS = ['The fit is judged where it is unique (design matrix of full rank over the measured points).']
REQUIRED = {'event:fit': 400, 'event:exact': 150, 'event:holes': 100}


def basis(o, degree):
    """Orthonormal basis of the polynomials on the measured points, evaluated everywhere; None if rank deficient."""
    z = np.asarray(o.data)
    if z.ndim == 1:
        u = np.linspace(-1, 1, z.size)
        cols = [np.polynomial.legendre.legval(u, [0] * i + [1]) for i in range(degree + 1)]
    else:
        ny, nx = z.shape
        v, u = np.meshgrid(np.linspace(-1, 1, ny), np.linspace(-1, 1, nx), indexing='ij')
        L = lambda t, i: np.polynomial.legendre.legval(t, [0] * i + [1])
        cols = [(L(u, i) * L(v, j)).ravel() for i in range(degree + 1) for j in range(degree + 1 - i)]
    a = np.column_stack(cols)
    ok = ~np.isnan(z).ravel()
    if ok.sum() < a.shape[1]:
        return None
    q, r = np.linalg.qr(a[ok])
    dr = np.abs(np.diag(r))
    if dr.min() < 1e-4 * dr.max() or np.linalg.cond(r) > 1e4:
        return None
    return a, r, q, ok


def fit(o, degree):
    b = basis(o, degree)
    if b is None:
        return None
    a, r, q, ok = b
    z = np.asarray(o.data).ravel()
    off = z[ok].mean()
    c = np.linalg.solve(r, q.T @ (z[ok] - off))
    return (a @ c + off).reshape(o.data.shape)


def run(o, degree, via, trend):
    if via == 'level':
        return o.level(return_trend=True) if trend else o.level()
    if via == 'default':
        return o.detrend_polynomial(return_trend=True) if trend else o.detrend_polynomial()
    return o.detrend_polynomial(degree=degree, return_trend=trend)


def choose(rng, o):
    via = ('level', 'default', 'degree', 'degree', 'degree')[rng.integers(5)]
    degree = 1 if via != 'degree' else int(rng.integers(1, 6))
    if degree > 3 and rng.random() < 0.5 and np.size(o.data) < 20000:
        degree = int(rng.integers(6, 11))
    return via, degree


def make(rng, nan):
    if rng.random() < 0.3:
        return (*gen.profile(rng, 8, 150, nan=nan), True)
    return (*gen.surface(rng, 4, 40, nan=nan), False)


def general(case):
    rng = case.rng
    nan = rng.random() < 0.45
    o, d, prof = make(rng, nan)
    if rng.random() < .15:
        z = np.array(o.data) * 10.0 ** -rng.integers(5, 13)
        o = Profile(z, o.step) if prof else Surface(z, o.step_x, o.step_y)
    via, degree = choose(rng, o)
    case.note(object='profile' if prof else 'surface', via=via, degree=degree, **d)
    z = np.array(o.data)
    hole = np.isnan(z)
    want = fit(o, degree)
    if want is None:
        case.event('rank-deficient')
        return
    case.event('fit', degree)
    if hole.any():
        case.event('holes', int(hole.sum()))
    res, trend = run(o, degree, via, True)
    scale = np.nanmax(np.abs(z)) + np.max(np.abs(want))
    t = 1e-8 * scale
    case.close('trend', trend.data, want, rtol=0, atol=t)
    case.close('result where measured', res.data[~hole], (z - want)[~hole], rtol=0, atol=t)
    case.same('non-measured points of the result', np.isnan(res.data), hole)
    case.close('result + trend', (res.data + trend.data)[~hole], z[~hole], rtol=0, atol=1e-12 * scale)
    case.close('result without return_trend', run(o, degree, via, False).data, res.data, rtol=0, atol=1e-13 * scale)
    for r, name in ((res, 'result'), (trend, 'trend')):
        case.check(type(r) is type(o), f'type of the {name}')
        case.check((r.step == o.step) if prof else ((r.step_x, r.step_y) == (o.step_x, o.step_y)), f'step sizes of the {name}')
    # the residual is orthogonal to the basis
    a, rr, q, ok = basis(o, degree)
    resid = np.asarray(res.data).ravel()[ok]
    case.close('residual orthogonal to the fitted form', q.T @ resid, np.zeros(q.shape[1]), rtol=0,
               atol=1e-8 * scale * np.sqrt(ok.sum()))
    # repetition
    again, tr2 = run(res, degree, via, True)
    case.close('second removal finds no trend', tr2.data, np.zeros(z.shape), rtol=0, atol=10 * t)
    case.close('second removal changes nothing', again.data, res.data, rtol=0, atol=10 * t)
    # in place with trend
    c = gen.clone(o)
    r2 = c.level(return_trend=True, inplace=True) if via == 'level' else \
        c.detrend_polynomial(degree=degree, return_trend=True, inplace=True)
    case.check(r2[0] is c, 'in-place call returns the object itself')
    case.close('in-place result', c.data, res.data, rtol=0, atol=1e-13 * scale)
    case.close('in-place trend', r2[1].data, trend.data, rtol=0, atol=1e-13 * scale)
    # results do not depend on the offset
    h = 3.25 if scale > 1e-2 else 3.25 * scale
    off = Profile(z + h, o.step) if prof else Surface(z + h, o.step_x, o.step_y)
    case.close('offset is removed', run(off, degree, via, False).data, res.data, rtol=0, atol=10 * t + 1e-9 * h)


def exact(case):
    """A surface that is a polynomial of at most the degree becomes flat; holes do not disturb the form."""
    rng = case.rng
    nan = rng.random() < 0.5
    o, d, prof = make(rng, nan)
    via, degree = choose(rng, o)
    true_degree = int(rng.integers(0, degree + 1))
    hole = np.isnan(np.asarray(o.data))
    # physical coordinates
    if prof:
        x = np.arange(o.size) * o.step
        z = sum(rng.normal() * (x / x.max()) ** i for i in range(true_degree + 1)) + np.zeros(o.size)
    else:
        y, x = np.mgrid[:o.size.y, :o.size.x]
        x, y = x * o.step_x, y * o.step_y
        z = sum(rng.normal() * (x / x.max()) ** i * (y / y.max()) ** j
                for i in range(true_degree + 1) for j in range(true_degree + 1 - i)) + np.zeros(x.shape)
    z = z * (5 if rng.random() < .8 else 5 * 10.0 ** -rng.integers(5, 13))
    full = z.copy()
    z[hole] = np.nan
    s = Profile(z, o.step) if prof else Surface(z, o.step_x, o.step_y)
    case.note(object='profile' if prof else 'surface', via=via, degree=degree, true_degree=true_degree, **d)
    if basis(s, degree) is None:
        return
    case.event('exact', true_degree)
    res, trend = run(s, degree, via, True)
    t = 1e-8 * np.max(np.abs(full))
    case.close('exact form is removed', res.data[~hole], np.zeros((~hole).sum()), rtol=0, atol=t)
    case.close('trend continues the form into the holes', trend.data, full, rtol=0, atol=1e3 * t)
    # detail on top of the form survives
    if degree == 1:
        bump = np.where(hole, np.nan, rng.normal(size=z.shape)) * (np.max(np.abs(full)) or 1.0)
        a = Profile(z + bump, o.step) if prof else Surface(z + bump, o.step_x, o.step_y)
        b = Profile(bump, o.step) if prof else Surface(bump, o.step_x, o.step_y)
        case.close('form does not affect the detail', run(a, degree, via, False).data, run(b, degree, via, False).data,
                   rtol=0, atol=10 * t)


STAGES = [Stage('general', general, 9000, 240000, large=250), Stage('exact', exact, 5000, 120000, large=250)]
