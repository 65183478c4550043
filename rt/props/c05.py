"""C05: height parameters of surfaces and profiles equal their definitions."""
import math
import numpy as np
from surfalize import Surface, Profile
from rt import gen
from rt.core import Stage

ID = 'C05'
RULE = ('Random surfaces/profiles of many kinds, sizes, offsets and scales; every height parameter, statistic and '
        'parameter dictionary is compared with the definition evaluated by exactly rounded summation in the harness.')
ASSUMPTIONS = ['Heights are finite floating point numbers; relative tolerance 1e-8 (cancellation of large offsets).']
REQUIRED = {'event:surface': 300, 'event:profile': 200, 'event:dictionary': 40, 'event:statistics': 200}


def moments(z):
    z = [float(v) for v in np.ravel(z)]
    n = len(z)
    m = math.fsum(z) / n
    c = [v - m for v in z]
    sa = math.fsum(abs(v) for v in c) / n
    sq = math.sqrt(math.fsum(v * v for v in c) / n)
    m3 = math.fsum(v ** 3 for v in c) / n
    m4 = math.fsum(v ** 4 for v in c) / n
    return m, c, sa, sq, m3, m4


def tolerances(z):
    """Absolute error of a centred height caused by rounding of the mean."""
    return 1e-13 * float(np.max(np.abs(z))) + 1e-300


def surface(case):
    rng = case.rng
    lo, hi = (3, 60) if rng.random() < 0.95 else (60, 180)
    s, d = gen.surface(rng, lo, hi)
    case.note(**d)
    z = np.array(s.data)
    m, c, sa, sq, m3, m4 = moments(z)
    a = tolerances(z)
    case.event('surface', d['kind'])
    hp = s.height_parameters()
    for name, want in (('Sa', sa), ('Sq', sq), ('Sp', max(c)), ('Sv', -min(c)), ('Sz', max(c) - min(c))):
        case.close(name, getattr(s, name)(), want, rtol=1e-9, atol=4 * a)
        case.close(f'height parameters[{name}]', hp[name], want, rtol=1e-9, atol=4 * a)
    if sq > 1e3 * a:
        rel = 10 * a / sq
        case.close('Ssk', s.Ssk(), m3 / sq ** 3, rtol=1e-8, atol=1e-8 + rel)
        case.close('Sku', s.Sku(), m4 / sq ** 4, rtol=1e-8 + rel)
        case.close('height parameters[Ssk]', hp['Ssk'], m3 / sq ** 3, rtol=1e-8, atol=1e-8 + rel)
        case.close('height parameters[Sku]', hp['Sku'], m4 / sq ** 4, rtol=1e-8 + rel)
    case.check(set(hp) == {'Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku'}, 'names in the height parameter dictionary')
    case.close('Sz = Sp + Sv', s.Sz(), s.Sp() + s.Sv(), rtol=1e-12)


def sections(c, n):
    """n consecutive sections whose lengths differ by at most one, the longer ones first."""
    q, r = divmod(len(c), n)
    out, k = [], 0
    for i in range(n):
        ln = q + (1 if i < r else 0)
        out.append(c[k:k + ln])
        k += ln
    return out


def profile(case):
    rng = case.rng
    p, d = gen.profile(rng, 5, 300)
    case.note(**d)
    z = np.array(p.data)
    m, c, ra, rq, m3, m4 = moments(z)
    a = tolerances(z)
    case.event('profile', d['kind'])
    case.close('Ra', p.Ra(), ra, atol=4 * a)
    case.close('Rq', p.Rq(), rq, atol=4 * a)
    case.close('Rt', p.Rt(), max(z) - min(z), atol=a)
    if rq > 1e3 * a:
        rel = 10 * a / rq
        case.close('Rsk', p.Rsk(), m3 / rq ** 3, rtol=1e-8, atol=1e-8 + rel)
        case.close('Rku', p.Rku(), m4 / rq ** 4, rtol=1e-8 + rel)
    for n in (None, 1, 2, 3, int(rng.integers(1, len(c) + 1))):
        kw = {} if n is None else {'n_sections': n}
        sec = sections(c, 5 if n is None else n)
        case.close(f'Rp({n})', p.Rp(**kw), math.fsum(max(s) for s in sec) / len(sec), atol=4 * a)
        case.close(f'Rv({n})', p.Rv(**kw), math.fsum(-min(s) for s in sec) / len(sec), atol=4 * a)
        case.close(f'Rz({n})', p.Rz(**kw), math.fsum(max(s) - min(s) for s in sec) / len(sec), atol=4 * a)
        if n is not None:
            case.same('positional section count', p.Rz(n), p.Rz(**kw))
    for n in (0, -1, len(c) + 1):
        for name in ('Rp', 'Rv', 'Rz'):
            case.raises(f'{name} with {n} sections of {len(c)} points', ValueError, lambda: getattr(p, name)(n_sections=n))


def statistics(case):
    rng = case.rng
    nan = rng.random() < 0.6
    o, d = gen.profile(rng, 5, 200, nan=nan) if rng.random() < 0.3 else gen.surface(rng, 3, 40, nan=nan)
    case.note(object=type(o).__name__, **d)
    z = np.array(o.data).ravel()
    v = z[~np.isnan(z)]
    m, c, sa, sq, *_ = moments(v)
    a = tolerances(v)
    case.event('statistics', d['nan'])
    case.same('min', o.min(), min(v.tolist()))
    case.same('max', o.max(), max(v.tolist()))
    case.close('mean', o.mean(), m, atol=4 * a)
    case.close('std', o.std(), sq, rtol=1e-9, atol=4 * a)
    sv = sorted(v.tolist())
    h = len(sv) // 2
    case.close('median', o.median(), sv[h] if len(sv) % 2 else (sv[h - 1] + sv[h]) / 2, rtol=1e-14, atol=a)
    case.check(bool(o.has_missing_points) == bool(np.isnan(z).any()), 'has_missing_points')


def dictionary(case):
    rng = case.rng
    prof = rng.random() < 0.4
    o, d = gen.profile(rng, 40, 120) if prof else gen.surface(rng, 10, 26)
    case.note(object=type(o).__name__, **d)
    case.event('dictionary')
    allp = o.roughness_parameters()
    case.check(tuple(allp) == tuple(o.ISO_PARAMETERS), 'the default dictionary lists the ISO parameters',
               got=list(allp))
    for k, v in allp.items():
        case.same(f'roughness_parameters()[{k}]', v, getattr(gen.clone(o), k)())
    names = list(o.ISO_PARAMETERS)
    some = [names[i] for i in rng.permutation(len(names))[:int(rng.integers(1, 6))]]
    if prof:
        some.append('Rt')
    else:
        some.append('stepheight')
    sub = o.roughness_parameters(some)
    case.check(list(sub) == some, 'the dictionary lists the requested parameters', got=list(sub), want=some)
    for k in some:
        case.same(f'roughness_parameters([...])[{k}]', sub[k], getattr(gen.clone(o), k)())
    for bad in ('Sfoo', 'level', 'Ra' if not prof else 'Sa', 'data'):
        case.raises(f'unknown parameter {bad}', ValueError, lambda: o.roughness_parameters([some[0], bad]))


STAGES = [Stage('surface', surface, 600, 20000, large=30, huge=300), Stage('profile', profile, 400, 15000, large=40, huge=200),
          Stage('statistics', statistics, 500, 15000, large=50, huge=250), Stage('dictionary', dictionary, 64, 800)]
