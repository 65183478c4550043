"""C03: in-place and copying calls of an operation agree; rejected calls leave the object as it was."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ops
from rt.core import Stage

ID = 'C03'
RULE = ('Random surfaces/profiles and operation arguments; the same call is made in place and as a copy and the two '
        'outcomes (heights, step sizes, extents, trend, exception) are compared bit for bit; sequences of operations are '
        'run both ways; calls with invalid arguments or on data with holes are bracketed by snapshots.')
ASSUMPTIONS = []
REQUIRED = {'event:pair': 500, 'event:chain': 50, 'event:rejected': 100}


def compare_pair(case, f, o, label):
    a, b = gen.clone(o), gen.clone(o)
    case.event('pair', label)
    try:
        ra, ea = f(a, False), None
    except Exception as e:
        ra, ea = None, e
    before = gen.snap(b)
    try:
        rb, eb = f(b, True), None
    except Exception as e:
        rb, eb = None, e
    case.check(type(ea) is type(eb), f'{label}: one of the two forms raised', copy=repr(ea), inplace=repr(eb))
    if ea is not None:
        diff = gen.snap_diff(before, gen.snap(b))
        case.check(diff is None, f'{label} failed in place but changed the {diff}')
        case.count('event:rejected')
        return None
    case.check(rb is b, f'{label} in place does not return the object itself', returned=repr(rb)[:80])
    diff = gen.snap_diff(gen.snap(ra), gen.snap(b))
    case.check(diff is None, f'{label}: {diff} differs between the copy and the in-place call')
    return b


def pairs(case):
    rng = case.rng
    nan = rng.random() < 0.35
    prof = rng.random() < 0.25
    o, d = gen.profile(rng, 20, 90, nan=nan) if prof else gen.surface(rng, 5, 30, nan=nan)
    case.note(object=type(o).__name__, **d)
    fl = ops.profile_ops(rng, o) if prof else ops.surface_ops(rng, o)
    for f in fl:
        compare_pair(case, f, o, f.label)
    # return_trend
    for k, (name, kw) in enumerate([('level', {}), ('detrend_polynomial', {'degree': 2})]):
        a, b = gen.clone(o), gen.clone(o)
        ra, ta = getattr(a, name)(return_trend=True, **kw)
        rb, tb = getattr(b, name)(return_trend=True, inplace=True, **kw)
        case.event('pair', name + ' trend')
        case.check(rb is b, f'{name} in place with trend does not return the object itself')
        case.check(gen.snap_diff(gen.snap(ra), gen.snap(b)) is None, f'{name} with trend: copy and in place differ')
        case.check(gen.snap_diff(gen.snap(ta), gen.snap(tb)) is None, f'{name}: trend differs between copy and in place')


def chains(case):
    rng = case.rng
    prof = rng.random() < 0.25
    nan = rng.random() < 0.3
    o, d = gen.profile(rng, 40, 120, nan=nan) if prof else gen.surface(rng, 16, 40, nan=nan)
    case.note(object=type(o).__name__, **d)
    b = gen.clone(o)
    c = gen.clone(o)
    if not prof:
        b.metadata['x'] = 5
    last = None
    for _ in range(int(rng.integers(2, 6))):
        if c.data.size == 0 or min(c.data.shape) < 4:
            break
        fl = ops.profile_ops(rng, c) if prof else ops.surface_ops(rng, c)
        # the copy made by stepheight_level keeps the segmentation of its source by design, which only matters when
        # stepheight_level is applied to it again
        fl = [f for f in fl if not (f.method == last == 'stepheight_level')]
        f = fl[int(rng.integers(len(fl)))]
        case.event('chain', f.label)
        try:
            c2, e1 = f(c, False), None
        except Exception as e:
            e1 = e
        try:
            r, e2 = f(b, True), None
        except Exception as e:
            e2 = e
        case.check(type(e1) is type(e2), f'{f.label}: only one form raised', copy=repr(e1), inplace=repr(e2))
        if e1 is None:
            if c2 is not c:    # filling a surface without holes returns the object itself, segmentation included
                last = f.method
            c = c2
            case.check(r is b, f'{f.label} in place does not return the object')
        sc, sb = gen.snap(c), gen.snap(b)
        sc.pop('metadata', None), sb.pop('metadata', None)
        diff = gen.snap_diff(sc, sb)
        # the memory layout of both objects may differ, so sums may be rounded differently
        if diff == 'height data' and sc['data'].shape == sb['data'].shape and np.allclose(
                sc['data'], sb['data'], rtol=1e-12, atol=1e-12 * np.nanmax(np.abs(sb['data'])), equal_nan=True):
            case.event('rounding', f.label)
            c, diff = gen.clone(b), None
        case.check(diff is None, f'after {f.label}: {diff} of the in-place chain differs from the chain of copies')
    if not prof:
        case.check(b.metadata == {'x': 5}, 'in-place operations changed the metadata')


def rejected(case):
    rng = case.rng
    prof = rng.random() < 0.25
    nan = rng.random() < 0.5
    o, d = gen.profile(rng, 20, 60, nan=nan) if prof else gen.surface(rng, 6, 20, nan=nan)
    case.note(object=type(o).__name__, **d)
    big = 3.0
    calls = [('filter both in place', lambda: o.filter('both', big, inplace=True)),
             ('filter unknown', lambda: o.filter('notch', big, inplace=True)),
             ('bandpass without cutoff2', lambda: o.filter('bandpass', big, inplace=True)),
             ('bandpass reversed', lambda: o.filter('bandpass', 2 * big, big, inplace=True)),
             ('bandpass equal', lambda: o.filter('bandpass', big, big, inplace=True)),
             ('remove_outliers unknown method', lambda: o.remove_outliers(method='mode', inplace=True)),
             ('threshold too large', lambda: o.threshold((60, 40), inplace=True)),
             ('threshold too large scalar', lambda: o.threshold(50, inplace=True))]
    if prof:
        L, n = o.length_um, o.size
        calls += [('crop outside', lambda: o.crop((0, L + 3 * o.step), inplace=True)),
                  ('crop negative', lambda: o.crop((-2 * o.step, L / 2), inplace=True)),
                  ('crop px outside', lambda: o.crop((0, n), in_units=False, inplace=True)),
                  ('crop px reversed', lambda: o.crop((5, 2), in_units=False, inplace=True))]
        unfilled = [('filter with holes', lambda: o.filter('lowpass', big, inplace=True))]
    else:
        w, h, ny, nx = o.width_um, o.height_um, *o.size
        calls += [('crop outside x', lambda: o.crop((0, w + 2 * o.step_x, 0, h), inplace=True)),
                  ('crop outside y', lambda: o.crop((0, w, 0, h + 2 * o.step_y), inplace=True)),
                  ('crop negative x', lambda: o.crop((-2 * o.step_x, w, 0, h), inplace=True)),
                  ('crop negative y', lambda: o.crop((0, w, -2 * o.step_y, h), inplace=True)),
                  ('crop px outside', lambda: o.crop((0, nx, 0, ny - 1), in_units=False, inplace=True)),
                  ('crop px outside y', lambda: o.crop((0, nx - 1, 0, ny), in_units=False, inplace=True)),
                  ('crop px negative', lambda: o.crop((-1, nx - 1, 0, ny - 1), in_units=False, inplace=True)),
                  ('align unknown axis', lambda: o.align(axis='z', inplace=True)),
                  ('align unknown method', lambda: o.align(method='magic', inplace=True))]
        unfilled = [('filter with holes', lambda: o.filter('lowpass', big, inplace=True)),
                    ('rotate with holes', lambda: o.rotate(10, inplace=True)),
                    ('align with holes', lambda: o.align(method='fft', inplace=True)),
                    ('bandpass with holes', lambda: o.filter('bandpass', big, 2 * big, inplace=True))]
    if o.has_missing_points:
        calls += unfilled
    reads = ops.profile_reads(rng, o) if prof else ops.surface_reads(rng, o)
    some = [reads[i] for i in rng.choice(len(reads), 4, replace=False)]
    vals = [ops.evaluate(f, o) for f in some]
    before = gen.snap(o)
    for label, fn in calls:
        case.event('rejected', label)
        case.raises(label, ValueError, fn)
        diff = gen.snap_diff(before, gen.snap(o))
        case.check(diff is None, f'rejected call ({label}) changed the {diff}')
    for f, v in zip(some, vals):
        case.check(ops.equal_values(ops.evaluate(f, o), v, 1e-12), f'rejected calls changed {f.label}')
    if not o.has_missing_points:
        a, b = o.filter('both', big)
        case.same('both: highpass', a.data, o.filter('highpass', big).data)
        case.same('both: lowpass', b.data, o.filter('lowpass', big).data)


STAGES = [Stage('pairs', pairs, 2400, 72000), Stage('chains', chains, 4800, 144000, large=160, huge=2400), Stage('rejected', rejected, 1440, 48000)]
