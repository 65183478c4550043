"""C02: isolation - operations that do not work in place, reads, plots and saving leave the object untouched, and
results never share mutable state with their source."""
import io
import numpy as np
import matplotlib.pyplot as plt
from surfalize import Surface, Profile
from rt import gen, ops
from rt.core import Stage

ID = 'C02'
RULE = ('Random surfaces and profiles (with and without non-measured points); every operation called without inplace, '
        'every read, the plots, the writers and the profile extractions are bracketed by deep snapshots of the source; '
        'results are then edited element-wise and in place (and the source edited after the result was taken) and both '
        'objects compared with their snapshots.')
ASSUMPTIONS = ['The array handed to the constructor or assigned as data is adopted, not copied (documented numpy '
               'semantics); only sharing between objects of the library is judged.']
REQUIRED = {'event:operation': 300, 'event:edit_result': 300, 'event:edit_source': 300, 'event:read': 300,
            'event:save': 20, 'event:plot': 10}


def make(case, nan=None):
    rng = case.rng
    nan = rng.random() < 0.4 if nan is None else nan
    if rng.random() < 0.25:
        o, d = gen.profile(rng, 20, 80, nan=nan)
    else:
        o, d = gen.surface(rng, 6, 24, nan=nan)
        o.metadata.update({'a': 1, 'operator': 'x'})
    case.note(object=type(o).__name__, **d)
    return o


def results_of(r):
    """Topography objects contained in a returned value."""
    if isinstance(r, (Surface, Profile)):
        return [r]
    if isinstance(r, (tuple, list)):
        return [x for x in r if isinstance(x, (Surface, Profile))]
    return []


def producers(rng, o):
    """Everything that derives a new topography from o without inplace."""
    out = []
    full = not o.has_missing_points
    if isinstance(o, Profile):
        out += [(f.label, lambda f=f: f(o, False)) for f in ops.profile_ops(rng, o) if full or not f.needs_full]
        out += [('level trend', lambda: o.level(return_trend=True)),
                ('detrend trend', lambda: o.detrend_polynomial(2, return_trend=True))]
        if full:
            out.append(('filter both', lambda: o.filter('both', 3 * o.step)))
        return out
    out += [(f.label, lambda f=f: f(o, False)) for f in ops.surface_ops(rng, o) if full or not f.needs_full]
    out += [('level trend', lambda: o.level(return_trend=True)),
            ('detrend trend', lambda: o.detrend_polynomial(2, return_trend=True)),
            ('slice all', lambda: o[:, :]), ('slice rows', lambda: o[1:]), ('slice step', lambda: o[::2, ::-1]),
            ('add 0', lambda: o + 0), ('radd 0', lambda: 0 + o), ('mul 1', lambda: o * 1), ('rmul', lambda: 1.0 * o),
            ('sub 0', lambda: o - 0), ('rsub', lambda: 1 - o), ('div 1', lambda: o / 1), ('add self', lambda: o + o),
            ('crop all', lambda: o.crop((0, o.size.x - 1, 0, o.size.y - 1), in_units=False)),
            ('zoom 1', lambda: o.zoom(1)),
            ('rotate 0', (lambda: o.rotate(0)) if full else (lambda: o.zoom(1.0))),
            ('hprofile', lambda: o.get_horizontal_profile(float(rng.uniform(0, o.height_um)))),
            ('vprofile', lambda: o.get_vertical_profile(float(rng.uniform(0, o.width_um)))),
            ('hprofile avg', lambda: o.get_horizontal_profile(o.height_um / 2, average=3)),
            ('vprofile avg', lambda: o.get_vertical_profile(o.width_um / 2, average=3)),
            ('oblique', lambda: o.get_oblique_profile(0, 0, o.width_um, o.height_um))]
    if full:
        out.append(('filter both', lambda: o.filter('both', 3 * max(o.step_x, o.step_y))))
    return out


def edit(rng, o):
    """Element-wise edit through the public interface."""
    d = o.data
    if d.size == 0:
        return
    if d.ndim == 1:
        o[int(rng.integers(d.shape[0]))] = 1e6
        o[:] = np.arange(d.shape[0]) * 7.0
    else:
        o[int(rng.integers(d.shape[0])), int(rng.integers(d.shape[1]))] = 1e6
        o[:] = np.arange(d.size).reshape(d.shape) * 7.0


def operations(case):
    rng = case.rng
    o = make(case)
    reads = ops.profile_reads(rng, o) if isinstance(o, Profile) else ops.surface_reads(rng, o)
    some = [reads[i] for i in rng.choice(len(reads), 4, replace=False)]
    warm = rng.random() < 0.7
    before_reads = [ops.evaluate(f, o) for f in some] if warm else None
    for label, fn in producers(rng, o):
        before = gen.snap(o)
        case.event('operation', label)
        r = fn()
        diff = gen.snap_diff(before, gen.snap(o))
        case.check(diff is None, f'{label} (not in place) changed the {diff} of its source')
        rs = results_of(r)
        case.check(rs, f'{label} returned no topography', returned=repr(r)[:100])
        snaps = [gen.snap(x) for x in rs]
        for x in rs:
            case.check(x is not o, f'{label} (not in place) returned the source itself')
        # edits of one result affect neither the source nor the other results
        for i, x in enumerate(rs):
            case.event('edit_result', label)
            edit(rng, x)
            diff = gen.snap_diff(before, gen.snap(o))
            case.check(diff is None, f'editing the result of {label} changed the {diff} of the source')
            for j, z in enumerate(rs):
                if j > i:
                    case.check(gen.snap_diff(snaps[j], gen.snap(z)) is None,
                               f'editing one result of {label} changed the other')
    if warm:
        for f, b in zip(some, before_reads):
            case.check(ops.equal_values(ops.evaluate(f, o), b, 1e-12), f'{f.label} changed although nothing was edited')


def source_edits(case):
    rng = case.rng
    o = make(case)
    for label, fn in producers(rng, o):
        rs = results_of(fn())
        snaps = [gen.snap(x) for x in rs]
        backup = np.array(o.data)
        case.event('edit_source', label)
        how = rng.integers(3)
        if how == 0:
            edit(rng, o)
        elif how == 1:
            o.zero(inplace=True)
            edit(rng, o)
        else:
            o[0] = -5.0
        for x, sn in zip(rs, snaps):
            diff = gen.snap_diff(sn, gen.snap(x))
            case.check(diff is None, f'editing the source changed the {diff} of an earlier result of {label}')
        o.data = backup


def reads(case):
    rng = case.rng
    o = make(case)
    rs = ops.profile_reads(rng, o) if isinstance(o, Profile) else ops.surface_reads(rng, o, heavy=rng.random() < 0.3)
    before = gen.snap(o)
    for f in rs:
        case.event('read', f.label)
        ops.evaluate(f, o)
    diff = gen.snap_diff(before, gen.snap(o))
    case.check(diff is None, f'reading parameters changed the {diff}')
    # the exposed height data cannot be used to bypass the object
    view = o.data
    case.raises('writing to the exposed height data', (ValueError, RuntimeError),
                lambda: view.__setitem__((0,) * view.ndim, 1.0))
    case.check(gen.snap_diff(before, gen.snap(o)) is None, 'writing to the exposed height data changed the object')
    if isinstance(o, Surface) and not o.has_missing_points:
        hp = o.height_parameters()
        ref = dict(hp)
        for k in list(hp):
            hp[k] = -1.0
        hp['Sx'] = 3
        case.check(o.height_parameters() == ref and o.Sa() == ref['Sa'],
                   'editing a returned parameter dictionary changed later results')
        rp = o.roughness_parameters(['Sa', 'Sq', 'Sz'])
        ref = dict(rp)
        rp.clear()
        case.check(o.roughness_parameters(['Sa', 'Sq', 'Sz']) == ref,
                   'editing a returned parameter dictionary changed later results')
        a, sp = o.get_fourier_transform().angular_power_spectrum(5)
        a0, s0 = a.copy(), sp.copy()
        a *= 0
        sp *= 0
        a1, s1 = o.get_fourier_transform().angular_power_spectrum(5)
        case.check(np.array_equal(a1, a0) and np.array_equal(s1, s0),
                   'editing a returned spectrum changed later results')


def depth_plot(o):
    try:
        o.depth(nprofiles=3, sampling_width=0.2, plot=[0])
    except Exception:
        pass


def save_plot(case):
    rng = case.rng
    nan = rng.random() < 0.4
    o, d = gen.surface(rng, 8, 24, nan=nan)
    o.metadata['operator'] = 'me'
    from surfalize.image import Image
    o.image_layers['Intensity'] = Image(rng.integers(0, 255, o.data.shape).astype('uint8'))
    case.note(**d)
    before = gen.snap(o)
    for fmt, kw in [('.sur', {}), ('.sur', {'compressed': True}), ('.sdf', {}), ('.sdf', {'binary': False}),
                    ('.sflz', {}), ('.sflz', {'dtype': '<f8', 'compression': 'lzma'}), ('.al3d', {}), ('.tmd', {})]:
        case.event('save', fmt)
        try:
            o.save(io.BytesIO(), format=fmt, **kw)
        except Exception as e:
            case.event('refused', f'{fmt} {type(e).__name__}')
        diff = gen.snap_diff(before, gen.snap(o))
        case.check(diff is None, f'saving as {fmt} {kw} changed the {diff}')
    flip = lambda: bool(rng.random() < .5)
    plots = [lambda: o.plot_2d(), lambda: o.plot_2d(vmin=0, vmax=1, show_cbar=flip()), lambda: o.plot_2d(layer='Intensity')]
    if not nan:
        def fourier():
            kw = {k: flip() for k in ('log', 'hanning', 'subtract_mean', 'adjust_colormap')}
            if flip():
                kw['fxmax'] = 0.3 / o.step_x
            if flip():
                kw['fymax'] = 0.3 / o.step_y
            case.note(fourier=kw)
            o.plot_fourier_transform(**kw)
        plots += [lambda: o.plot_abbott_curve(nbars=int(rng.integers(2, 30))), lambda: o.plot_functional_parameter_study(),
                  lambda: o.plot_autocorrelation(show_cbar=flip()), fourier, fourier,
                  lambda: o.plot_angular_power_spectrum(angle_step=int(rng.choice([1, 5]))),
                  lambda: o.get_horizontal_profile(0).plot_2d(), lambda: o.get_horizontal_profile(0).plot_abbott_curve(),
                  lambda: o.get_vertical_profile(0).plot_functional_parameter_study(), lambda: depth_plot(o)]
    sa = None if nan else (o.Sa(), o.Sal(), o.Sk(), o.period())
    for i in rng.choice(len(plots), min(4, len(plots)), replace=False):
        case.event('plot', int(i))
        plots[i]()
        plt.close('all')
        diff = gen.snap_diff(before, gen.snap(o))
        case.check(diff is None, f'plotting changed the {diff}')
    if sa is not None:
        case.same('parameters after plotting', [o.Sa(), o.Sal(), o.Sk(), o.period()], sa)


STAGES = [Stage('operations', operations, 1200, 36000, large=60), Stage('source_edits', source_edits, 1200, 36000),
          Stage('reads', reads, 360, 7200, large=40), Stage('save_plot', save_plot, 240, 3600)]
