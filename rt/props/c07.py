"""C07: material ratio curve, functional (Sk family) and volume parameters."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ref
from rt.core import Stage

ID = 'C07'
RULE = ('Random surfaces and profiles, including quantised, two-level, skewed and outlier-ridden heights; curve, '
        'functional and volume parameters against an independent construction of the curve (own quantiles, prefix-sum '
        'least squares; every near-tied equivalence line and the discretisation of the areas are accepted as a band) and '
        'against relations between the parameters.')
ASSUMPTIONS = ['The curve is sampled at 10000 equidistant material ratios and the equivalence line is fitted over 40 %.']
REQUIRED = {'event:surface': 150, 'event:profile': 60, 'lines_matched': 200}

NAMES_S = dict(k='Sk', pk='Spk', vk='Svk', pkx='Spkx', vkx='Svkx', ak1='Sak1', ak2='Sak2', mr1='Smr1', mr2='Smr2',
               mr1b='Smrk1', mr2b='Smrk2', mr='Smr', mc='Smc', xp='Sxp', dc='Sdc')
NAMES_P = {k: 'R' + v[1:] for k, v in NAMES_S.items()}


def make(case):
    rng = case.rng
    kind = rng.integers(9)
    prof = rng.random() < 0.3
    if prof:
        o, d = gen.profile(rng, 5, 400)
        ny, nx = 1, o.size
    else:
        o, d = gen.surface(rng, 3, 40 if rng.random() < 0.93 else 160)
        ny, nx = o.data.shape
    if kind == 0:      # two levels
        z = np.where(rng.random((ny, nx)) < rng.uniform(0.1, 0.9), 0.0, float(rng.uniform(0.5, 5)))
        d['kind'] = 'two-level'
    elif kind == 1:    # quantised
        z = np.round(rng.normal(size=(ny, nx)) * 4) / 4
        d['kind'] = 'quantised'
    elif kind == 2:    # skewed
        z = rng.gamma(0.7, 2.0, (ny, nx)) * rng.choice([-1, 1])
        d['kind'] = 'skewed'
    elif kind == 3:    # uniform ramp: straight curve
        z = rng.permutation(ny * nx).reshape(ny, nx).astype(float) * float(rng.uniform(0.01, 3))
        d['kind'] = 'ramp'
    else:
        z = None
    if z is not None:
        if z.min() == z.max():
            z.flat[0] += 1
        o.data = z[0].copy() if prof else z
    d['z'] = float(o.data.flat[0])
    return o, d, prof


def run(case):
    rng = case.rng
    o, d, prof = make(case)
    case.note(object=type(o).__name__, **d)
    case.event('profile' if prof else 'surface', d['kind'])
    N = NAMES_P if prof else NAMES_S
    g = lambda key, *a, **k: getattr(o, N[key])(*a, **k)
    z = np.array(o.data)
    A = ref.Abbott(z)
    e, R = A.eps, A.range
    slackR = 1e-8 * R + e
    mx, mn = float(z.max()), float(z.min())

    # --- the curve --------------------------------------------------------------------------------------------------
    ps = [0.0, 2.5, 5, 10, 25, 50, 80, 90, 97.5, 100.0] + rng.uniform(0, 100, 4).tolist()
    mcs = []
    for p in ps:
        v = g('mc', p)
        lo, hi = A.mc_band(p)
        case.within(f'height at material ratio {p:.4g} %', v, lo, hi, slack=slackR)
        mcs.append(v)
    case.close('height at 0 % is the maximum', g('mc', 0), mx, atol=slackR)
    case.close('height at 100 % is the minimum', g('mc', 100), mn, atol=slackR)
    order = np.argsort(ps)
    case.check(np.all(np.diff(np.array(mcs)[order]) <= slackR), 'the material ratio curve increases')
    cs = [mx, mn, (mx + mn) / 2, float(np.median(z)), float(z.mean()), float(z.flat[0]), float(z.flat[-1])] + \
        (mn + R * rng.random(4)).tolist()
    mrs = []
    for c in cs:
        v = g('mr', c)
        lo, hi = A.mr_band(c)
        case.within(f'material ratio at height {c:.6g}', v, lo, hi, slack=2e-3)
        lo, hi = A.fraction_band(c)
        case.within(f'material ratio at height {c:.6g} against the fraction of samples above it', v, lo, hi,
                    slack=100.0 / A.n + 0.03)
        mrs.append(v)
    order = np.argsort(cs)
    case.check(np.all(np.diff(np.array(mrs)[order]) <= 1e-6), 'the material ratio increases with the height')
    case.close('material ratio above the surface', g('mr', mx + 1), 0, atol=1e-9)
    case.close('material ratio below the surface', g('mr', mn - 1), 100, atol=1e-9)
    for p in rng.uniform(1, 99, 3):
        v = g('mr', g('mc', p))
        lo, hi = A.mr_band(g('mc', p))
        case.within('ratio of the height of a ratio', v, lo - 0.02, hi + 0.02)

    # --- equivalence line ---------------------------------------------------------------------------------------------
    sk, upper, lower = g('k'), mx - g('pkx'), mn + g('vkx')
    case.close('Sk spans the two extreme heights', sk, upper - lower, atol=2 * slackR)
    lines = A.lines()
    dist = np.max(np.abs(lines - [upper, lower]), axis=1)
    case.check(dist.min() <= 1e-6 * R + 10 * e, 'no admissible equivalence line gives this core height',
               got=[upper, lower], nearest=lines[np.argmin(dist)])
    case.count('lines_matched')
    mr1, mr2 = g('mr1'), g('mr2')
    # the intersection heights are known only to rounding: widen by it
    w = 1e-7 * R + e
    lo, hi = A.mr_band(upper + w)[0], A.mr_band(upper - w)[1]
    case.within('mr1 is the material ratio at the upper end of the core', mr1, lo, hi, slack=2e-3)
    lo, hi = A.mr_band(lower + w)[0], A.mr_band(lower - w)[1]
    case.within('mr2 is the material ratio at the lower end of the core', mr2, lo, hi, slack=2e-3)
    case.same('alias of mr1', g('mr1b'), mr1)
    case.same('alias of mr2', g('mr2b'), mr2)

    # --- reduced peaks and valleys ------------------------------------------------------------------------------------
    pk, vk = g('pk'), g('vk')
    if mr1 == 0:
        case.count('no_peaks')
        case.same('reduced peak height without peaks', [pk, g('ak1')], [0.0, 0.0])
    if mr2 == 100:
        case.count('no_valleys')
        case.same('reduced valley depth without valleys', [vk, g('ak2')], [0.0, 0.0])
    case.within('reduced heights', pk, 0, np.inf)
    case.within('reduced heights', vk, 0, np.inf)
    if mr1 > 1e-6:
        lo, hi = A.area_above(upper)
        case.within('area of the peaks', pk * mr1 / 2, lo, hi, slack=1e-7 * R * 100)
        case.close('Sak1', g('ak1'), 0.5 * pk * mr1, rtol=1e-9, atol=1e-12 * R)
    if 100 - mr2 > 1e-6:
        lo, hi = A.area_below(lower)
        case.within('area of the valleys', vk * (100 - mr2) / 2, lo, hi, slack=1e-7 * R * 100)
        case.close('Sak2', g('ak2'), 0.5 * vk * (100 - mr2), rtol=1e-9, atol=1e-12 * R)

    # --- volumes --------------------------------------------------------------------------------------------------------
    p, q = sorted(rng.uniform(1, 99, 2).tolist())
    mean = math.fsum(z.ravel().tolist()) / z.size
    ends = (100 - 10 ** float(rng.uniform(-2, 0.3)), 10 ** float(rng.uniform(-2, 0.3)))
    for t in (10.0, 80.0, p, q, *ends):
        vm, vv, c = o.Vm(t), o.Vv(t), g('mc', t)
        lo, hi = A.area_above(c)
        case.within(f'Vm({t:.4g})', vm, lo / 100, hi / 100, slack=slackR)
        lo, hi = A.area_below(c)
        case.within(f'Vv({t:.4g})', vv, lo / 100, hi / 100, slack=slackR)
        a, b = A._span(c)
        slack = (A.h[a] - A.h[b]) + 1e-3 * R / 10 + abs(mean - np.trapezoid(A.h, A.mr) / 100) + 10 * slackR
        case.close('material minus void volume equals mean minus height', vm - vv, mean - c, rtol=0, atol=slack)
    case.same('Vmp', o.Vmp(), o.Vm(10))
    case.same('Vmp(p)', o.Vmp(p), o.Vm(p))
    case.same('Vvv', o.Vvv(), o.Vv(80))
    case.same('Vvv(q)', o.Vvv(q), o.Vv(q))
    case.close('Vmc', o.Vmc(), o.Vm(80) - o.Vm(10), atol=1e-12 * R)
    case.close('Vmc(p,q)', o.Vmc(p, q), o.Vm(q) - o.Vm(p), atol=1e-12 * R)
    case.close('Vvc', o.Vvc(), o.Vv(10) - o.Vv(80), atol=1e-12 * R)
    case.close('Vvc(p,q)', o.Vvc(p=p, q=q), o.Vv(p) - o.Vv(q), atol=1e-12 * R)
    case.check(o.Vm(q) >= o.Vm(p) - slackR and o.Vv(p) >= o.Vv(q) - slackR, 'volumes are monotonic')

    # --- height differences --------------------------------------------------------------------------------------------
    case.close('Sxp', g('xp'), g('mc', 2.5) - g('mc', 50), atol=1e-12 * R)
    case.close('Sxp(p,q)', g('xp', p, q), g('mc', p) - g('mc', q), atol=1e-12 * R)
    case.close('Sdc', g('dc'), g('mc', 2.5) - g('mc', 50), atol=1e-12 * R)
    case.close('Sdc(p,q)', g('dc', p=p, q=q), g('mc', p) - g('mc', q), atol=1e-12 * R)
    # --- the curve object exposes the same quantities ----------------------------------------------------------------------
    ab = o.get_abbott_firestone_curve()
    case.same('curve object', [ab.k(), ab.mr1(), ab.mc(p), ab.vmp(), ab.vmc(p, q)],
              [sk, mr1, g('mc', p), o.Vmp(), o.Vmc(p, q)])


STAGES = [Stage('curve', run, 1080, 13500, large=54, huge=360)]
