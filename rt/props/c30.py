"""C30: results depend on the heights, step sizes and arguments only; arguments and global state are left alone."""
import io
import os
import pickle
import random
import sys
import threading
import copy
import locale
import warnings
import numpy as np
import pandas as pd
import matplotlib as mpl
import matplotlib.pyplot as plt
from surfalize import Batch, FileInput, Profile, Surface
from surfalize import mathutils as mu
from surfalize.filter import GaussianFilter
from surfalize.file.common import FileHandler, RawSurface
from rt import batches as bt, formats as fm, gen, ops
from rt.core import Stage

ID = 'C30'
RULE = ('Every operation and read of random surfaces and profiles is repeated with the same heights stored in other array layouts, '
        'under other global states (random generators, print options, working directory, default styles), on deep and pickled copies, '
        'and by several threads that share one surface; results are compared, and the global state and every mutable argument are '
        'compared with snapshots taken before the call.')
ASSUMPTIONS = ['Layouts other than contiguous may change the order of summation: results agree within rounding.',
               'Results of threads sharing a surface are compared for reads, not for operations that work in place.']
REQUIRED = {'event:layout': 300, 'event:state': 300, 'event:argument': 600, 'event:copy': 200, 'event:shared read': 2000,
            'event:overlap': 10, 'event:copied result': 40, 'event:plot': 60}


def topo(case, nan=None, lo=8, hi=28, profile=.3):
    rng = case.rng
    if gen.FORCED:
        lo, hi, profile = 140, 300, .1
    nan = rng.random() < .3 if nan is None else nan
    if rng.random() < profile:
        n = int(rng.integers(20, 120))
        z = np.cumsum(rng.normal(size=n)) * float(rng.choice([.01, 1.0, 30.0])) + float(rng.uniform(-5, 5))
        if nan:
            z[rng.random(n) < .1] = np.nan
            z[0] = z[-1] = 1.0
        o = Profile(z, float(rng.choice([.1, 1.0, .37])))
    else:
        ny, nx = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
        z = rng.normal(size=(ny, nx)) + np.linspace(0, 1, nx) + rng.normal(size=(ny, 1)) * .3
        z = z * float(rng.choice([.01, 1.0, 30.0])) + float(rng.uniform(-5, 5))
        if nan:
            z[rng.random((ny, nx)) < .1] = np.nan
            z[0, 0] = z[-1, -1] = 1.0
        o = Surface(z, *gen.steps(rng))
    case.note(object=type(o).__name__, shape=list(o.data.shape), nan=int(np.isnan(o.data).sum()), z0=float(o.data.flat[0]))
    return o


def rebuild(o, z):
    return Profile(z, o.step, o.length_um) if isinstance(o, Profile) else Surface(z, o.step_x, o.step_y)


def variants(rng, z):
    """The same heights in other layouts."""
    out = [('big endian', z.astype('>f8')), ('backwards', z[::-1].copy()[::-1])]
    big = np.full(tuple(2 * n + 1 for n in z.shape), -9e9)
    big[tuple(slice(1, 2 * n + 1, 2) for n in z.shape)] = z
    out.append(('strided', big[tuple(slice(1, 2 * n + 1, 2) for n in z.shape)]))
    frozen = z.copy()
    frozen.flags.writeable = False
    out.append(('from bytes', np.frombuffer(z.tobytes(), '<f8').reshape(z.shape).copy()))
    if z.ndim == 2:
        out += [('fortran', np.asfortranarray(z)), ('transposed', z.T.copy().T), ('mirrored', z[:, ::-1].copy()[:, ::-1])]
    i = rng.permutation(len(out))[:3]
    return [out[k] for k in i]


def reads_of(rng, o):
    if isinstance(o, Profile):
        return ops.profile_reads(rng, o)
    return [r for r in ops.surface_reads(rng, o, heavy=rng.random() < .15)]


def layout(case):
    rng = case.rng
    o = topo(case)
    z = np.array(o.data)
    reads = [f for f in reads_of(rng, o) if f.base not in ops.OPTIMISED]
    reads = [reads[i] for i in rng.choice(len(reads), 14, replace=False)]
    acts = ops.profile_ops(rng, o) if isinstance(o, Profile) else ops.surface_ops(rng, o)
    acts = [f for f in acts if not f.needs_full or not o.has_missing_points]
    acts = [acts[i] for i in rng.choice(len(acts), 4, replace=False)]
    ref = rebuild(o, z.copy())
    want = [ops.evaluate(f, ref) for f in reads]
    for name, v in variants(rng, z):
        case.event('layout', name)
        keep = v.copy()
        other = rebuild(o, v)
        for f, w in zip(reads, want):
            got = ops.evaluate(f, other)
            case.check(ops.equal_values(got, w, 1e-7), f'{f.label} depends on the layout of the array ({name})', got=got, want=w)
        case.check(np.array_equal(v, keep, equal_nan=True), f'reading changed the array ({name})')
        for f in acts:
            a, b = rebuild(o, z.copy()), rebuild(o, v)
            r = [outcome(f, x, False) for x in (a, b)]
            compare(case, f'{f.label} depends on the layout of the array ({name})', *r, tol=1e-8)
            case.check(np.array_equal(v, keep, equal_nan=True), f'{f.label} (not in place) changed the array ({name})')
            r = [outcome(f, rebuild(o, x), True) for x in (z.copy(), v.copy(order='K') if name != 'strided' else v)]
            compare(case, f'{f.label} in place depends on the layout of the array ({name})', *r, tol=1e-8)
            if name == 'strided':
                v[...] = keep


def outcome(f, o, inplace):
    try:
        return 'ok', f(o, inplace)
    except Exception as e:
        return 'exc', e


def compare(case, what, a, b, tol=0.0):
    case.check(a[0] == b[0], f'{what}: only one of two calls fails', first=repr(a[1])[:200], second=repr(b[1])[:200])
    if a[0] == 'exc':
        case.check(type(a[1]) is type(b[1]), f'{what}: other error', first=repr(a[1])[:200], second=repr(b[1])[:200])
        return
    same_object(case, what, a[1], b[1], tol)


def same_object(case, what, a, b, tol=0.0):
    case.check(type(a) is type(b), f'{what}: other type', first=type(a).__name__, second=type(b).__name__)
    if isinstance(a, (tuple, list)):
        case.check(len(a) == len(b), f'{what}: other length')
        for x, y in zip(a, b):
            same_object(case, what, x, y, tol)
    elif isinstance(a, (Surface, Profile)):
        case.close(what, np.array(b.data), np.array(a.data), rtol=tol, atol=0 if not tol else 1e-12)
        st = (lambda o: [o.step, o.length_um]) if isinstance(a, Profile) else (lambda o: [o.step_x, o.step_y, o.width_um, o.height_um])
        case.close(what + ': steps', st(b), st(a), rtol=tol)
    else:
        case.check(ops.equal_values(('ok', ops.value(b)), ('ok', ops.value(a)), tol), what, first=repr(a)[:200], second=repr(b)[:200])


# -- global state -----------------------------------------------------------------------------------------------------
def world(figures=True):
    st = np.random.get_state()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = dict(np_random=(st[0], st[1].tobytes(), st[2]), py_random=hash(random.getstate()), errors=tuple(np.geterr().items()),
                 print_options=repr(np.get_printoptions()), rc=repr(dict(mpl.rcParams)), cwd=os.getcwd(), environ=repr(sorted(os.environ.items())),
                 locale=locale.setlocale(locale.LC_ALL), recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(),
                 pandas=repr([pd.get_option(k) for k in ('display.precision', 'display.max_rows', 'mode.chained_assignment')]),
                 path=tuple(sys.path), stdout=id(sys.stdout), stderr=id(sys.stderr), umask=umask())
        if figures:
            w['figures'] = tuple(plt.get_fignums())
    w['warnings'] = repr(warnings.filters)
    return w


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def untouched(case, what, before, after):
    for k in before:
        case.check(before[k] == after[k], f'{what} changed the global state: {k}', before=str(before[k])[:200], after=str(after[k])[:200])


class other_world:
    """Global state another program might have set up."""

    def __init__(self, case):
        self.case, self.rng = case, case.rng

    def __enter__(self):
        rng = self.rng
        self.old = (np.random.get_state(), random.getstate(), np.get_printoptions(), os.getcwd(), np.geterr(), dict(mpl.rcParams))
        np.random.seed(int(rng.integers(1 << 30)))
        random.seed(int(rng.integers(1 << 30)))
        np.set_printoptions(precision=int(rng.integers(1, 4)), threshold=5, suppress=True, edgeitems=1)
        d = os.path.join(self.case.tmp, 'elsewhere')
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        self.figs = [plt.figure() for _ in range(int(rng.integers(0, 3)))]
        for f in self.figs:
            f.add_subplot().plot([1, 2, 3])
        return self

    def __exit__(self, *a):
        np.random.set_state(self.old[0])
        random.setstate(self.old[1])
        np.set_printoptions(**{k: v for k, v in self.old[2].items() if k not in ('override_repr',)})
        os.chdir(self.old[3])
        for f in self.figs:
            plt.close(f)


def state(case):
    rng = case.rng
    o = topo(case)
    z = np.array(o.data)
    reads = reads_of(rng, o)
    reads = [reads[i] for i in rng.choice(len(reads), 14, replace=False)]
    acts = ops.profile_ops(rng, o) if isinstance(o, Profile) else ops.surface_ops(rng, o)
    acts = [acts[i] for i in rng.choice(len(acts), 6, replace=False)]
    before = world()
    first = []
    for f in reads:
        first.append(ops.evaluate(f, rebuild(o, z.copy())))
        untouched(case, f.label, before, world())
    done = []
    for f in acts:
        done.append(outcome(f, rebuild(o, z.copy()), bool(rng.random() < .5)))
        untouched(case, f.label, before, world())
    with other_world(case) as w:
        case.event('state', len(w.figs))
        inside = world()
        for f, a in zip(reads, first):
            b = ops.evaluate(f, rebuild(o, z.copy()))
            case.check(ops.equal_values(b, a, 0.0), f'{f.label} depends on more than heights and arguments', first=a, second=b)
        for f, a in zip(acts, done):
            compare(case, f'{f.label} depends on more than heights and arguments', a, outcome(f, rebuild(o, z.copy()), bool(rng.random() < .5)))
        untouched(case, 'the calls', inside, world())
        if not o.has_missing_points and rng.random() < .35:
            plots(case, o)
        for f in w.figs:
            case.check(len(f.axes) == 1 and len(f.axes[0].lines) == 1 and not f.axes[0].images and f.axes[0].get_title() == '',
                       'a figure of the caller was drawn on')


def plots(case, o):
    """Plots leave nothing behind but their own figures."""
    rng = case.rng
    some = [lambda: o.plot_abbott_curve(), lambda: o.plot_functional_parameter_study(), lambda: o.plot_2d(),
            lambda: o.plot_abbott_curve(save_to=os.path.join(case.tmp, 'p.png'))]
    if isinstance(o, Surface):
        some += [lambda: o.plot_autocorrelation(), lambda: o.plot_fourier_transform(hanning=bool(rng.random() < .5)),
                 lambda: o.plot_angular_power_spectrum(), lambda: o.plot_2d(save_to=os.path.join(case.tmp, 'q.png')),
                 lambda: o.get_fourier_transform().plot(), lambda: o.get_horizontal_profile(0).plot_2d()]
    for i in rng.choice(len(some), 2, replace=False):
        before, open_ = world(figures=False), plt.get_fignums()
        case.event('plot', int(i))
        some[i]()
        for n in plt.get_fignums():
            if n not in open_:
                plt.close(n)
        case.check(plt.get_fignums() == open_, 'a plot closed figures of the caller')
        untouched(case, 'a plot', before, world(figures=False))


def files(case):
    """Saving, loading and batches under another global state."""
    rng = case.rng
    o = topo(case, nan=False, profile=0)
    o.metadata['operator'] = 'me'
    suf, opt = bt.STORE[rng.integers(len(bt.STORE))]
    case.note(fmt=suf, **{k: str(v) for k, v in opt.items()})
    before = world()
    b = io.BytesIO()
    fm.save(o, b, suf, opt)
    untouched(case, f'saving {suf}', before, world())
    s = fm.load(io.BytesIO(b.getvalue()), format=suf)
    untouched(case, f'loading {suf}', before, world())
    with other_world(case):
        case.event('state', suf)
        inside = world()
        t = fm.load(io.BytesIO(b.getvalue()), format=suf)
        same_object(case, f'the surface loaded from {suf} depends on the global state', s, t)
        b2 = io.BytesIO()
        fm.save(o, b2, suf, opt)
        same_object(case, f'the file written as {suf} depends on the global state', s, fm.load(io.BytesIO(b2.getvalue()), format=suf))
        if rng.random() < .3:
            files_ = [FileInput('a' + suf, io.BytesIO(b.getvalue())), FileInput('b' + suf, io.BytesIO(b2.getvalue()))]
            df = Batch(files_).level().Sa().Sq().execute(multiprocessing=bool(rng.random() < .5)).get_dataframe()
            u = s.level()
            case.close('batch under another global state', np.array(df[['Sa', 'Sq']], float), [[u.Sa(), u.Sq()]] * 2, rtol=1e-12)
        untouched(case, f'files and batches ({suf})', inside, world())
    # refused input and files with a wrong suffix leave no trace either
    before = world()
    wrong = os.path.join(case.tmp, 'x' + str(rng.choice(['.sur', '.xyz', '.plu', '.sdf', '.foo'])))
    content = [b.getvalue(), b'\n'.join(b'%d %d %d' % (x, y, x * y % 5) for y in range(3) for x in range(4)) + b'\n',
               bytes(rng.integers(0, 255, 300, dtype='uint8'))][rng.choice(3, p=[.4, .4, .2])]
    with open(wrong, 'wb') as fh:
        fh.write(content)
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        inside = world()
        try:
            t = Surface.load(wrong)
        except Exception as e:
            case.event('refused', type(e).__name__)
        untouched(case, 'loading a file with a wrong suffix', inside, world())
    try:
        Surface.load(io.BytesIO(bytes(rng.integers(0, 255, 300, dtype='uint8'))))
    except Exception:
        pass
    try:
        Surface.load(io.BytesIO(b.getvalue()[:int(rng.integers(10, len(b.getvalue())))]), format=suf)
    except Exception:
        pass
    untouched(case, 'a refused load', before, world())


# -- copies -----------------------------------------------------------------------------------------------------------
def copies(case):
    rng = case.rng
    o = topo(case)
    if isinstance(o, Surface):
        o.metadata.update({'a': [1, 2], 'operator': 'x'})
    reads = [f for f in reads_of(rng, o)]
    reads = [reads[i] for i in rng.choice(len(reads), 8, replace=False)]
    warm = [ops.evaluate(f, o) for f in reads] if rng.random() < .8 else None
    how = ['deepcopy', 'pickle', 'pickle0'][rng.integers(3)]
    c = copy.deepcopy(o) if how == 'deepcopy' else pickle.loads(pickle.dumps(o, protocol=0 if how == 'pickle0' else -1))
    case.event('copy', how)
    case.check(type(c) is type(o), f'{how} returned another type')
    case.check(gen.snap_diff(gen.snap(o), gen.snap(c)) is None, f'{how} differs', diff=gen.snap_diff(gen.snap(o), gen.snap(c)))
    if isinstance(o, Surface) and not np.isnan(o.data).any():
        case.check(c == o and hash(c) == hash(o), f'{how} is not equal to its source')
    # both live on independently
    before = gen.snap(o)
    acts = ops.profile_ops(rng, c) if isinstance(c, Profile) else ops.surface_ops(rng, c)
    f = acts[rng.integers(len(acts))]
    outcome(f, c, True)
    if c.data.size:
        c[0] = 77.0
    if isinstance(o, Surface):
        c.metadata['a'] = 3 if rng.random() < .5 else c.metadata['a'].append(9)
    case.check(gen.snap_diff(before, gen.snap(o)) is None, f'editing a {how} changed its source', diff=gen.snap_diff(before, gen.snap(o)))
    fresh = rebuild(c, np.array(c.data)) if not isinstance(c, Profile) else Profile(np.array(c.data), c.step, c.length_um)
    for f in reads:
        a, b = ops.evaluate(f, c), ops.evaluate(f, fresh)
        case.check(ops.equal_values(a, b, 1e-9), f'{f.label} of an edited {how} is not that of its heights', got=a, want=b)
    if warm is not None:
        for f, w in zip(reads, warm):
            case.check(ops.equal_values(ops.evaluate(f, o), w, 1e-12), f'{f.label} changed after a {how} was edited')


def results(case):
    """Copies of the result of a batch."""
    rng = case.rng
    n = int(rng.integers(1, 5))
    zs = [rng.normal(size=(8, 9)) for _ in range(n)]
    ins = []
    for i, z in enumerate(zs):
        b = io.BytesIO()
        Surface(z, 1.0, 1.0).save(b, format='.sflz', dtype='<f8')
        ins.append(FileInput(f'p{i * 10}_x.sflz', b, '.sflz'))
        b.seek(0)
    res = Batch(ins).Sa().Sz().execute(multiprocessing=False)
    how = ['copy', 'deepcopy', 'pickle', 'pickle0'][rng.integers(4)]
    c = copy.copy(res) if how == 'copy' else copy.deepcopy(res) if how == 'deepcopy' else pickle.loads(pickle.dumps(res, protocol=0 if how == 'pickle0' else -1))
    case.event('copied result', how)
    case.check(type(c) is type(res), f'{how} of a result is of another type', got=type(c).__name__)
    want = [[s.Sa(), s.Sz()] for s in (Surface(z, 1.0, 1.0) for z in zs)]
    for r in (res, c):
        case.close(f'heights of the {how} of a result', np.array(r.get_dataframe()[['Sa', 'Sz']], float), want, rtol=1e-9)
        case.check(list(r['file']) == [i.name for i in ins] and list(r.columns) == ['file', 'Sa', 'Sz'] and len(r.Sa) == n, 'access to a result')
    c.extract_from_filename('p<power|int>_x')
    case.check(list(c['power']) == [i * 10 for i in range(n)], f'extraction on the {how} of a result')
    case.check(list(res.columns) == ['file', 'Sa', 'Sz'], f'extraction on a {how} changed its source')
    if how != 'copy':
        c['new'] = 1.0
        c['Sa'] = 0.0
        case.check(list(res.columns) == ['file', 'Sa', 'Sz'], f'an edited {how} changed its source')
        case.close(f'an edited {how} changed its source', np.array(res.get_dataframe()['Sa'], float), [w[0] for w in want], rtol=1e-9)


# -- arguments --------------------------------------------------------------------------------------------------------
def freeze(x):
    if isinstance(x, np.ndarray):
        return ('array', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, pd.DataFrame):
        return ('table', x.to_json(), list(x.columns), list(x.index))
    if isinstance(x, dict):
        return ('dict', [(k, freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v) for v in x])
    if isinstance(x, io.BytesIO):
        return ('buffer', x.getvalue())
    if isinstance(x, (Surface, Profile)):
        return ('topo', freeze(list(gen.snap(x).items())))
    if isinstance(x, FileInput):
        return ('input', x.name, id(x.data), freeze(x.data), x.format)
    return repr(x)


def call(case, label, fn, *args, **kw):
    """Calls fn twice with the very same arguments: they are not modified and the outcome is the same."""
    before = freeze([list(args), kw])
    case.event('argument', label)
    r = []
    for _ in range(2):
        try:
            r.append(('ok', fn(*args, **kw)))
        except Exception as e:
            r.append(('exc', type(e).__name__))
        case.check(freeze([list(args), kw]) == before, f'{label} modified an argument of the caller', before=str(before)[:300],
                   after=str(freeze([list(args), kw]))[:300])
    case.check(r[0][0] == r[1][0], f'{label}: the same call fails only once', first=repr(r[0])[:200], second=repr(r[1])[:200])
    if r[0][0] == 'ok' and r[0][1] is not None:
        a, b = r[0][1], r[1][1]
        if isinstance(a, pd.DataFrame):
            pd.testing.assert_frame_equal(a, b)
        elif not isinstance(a, (Batch, FileHandler)) and not callable(a):
            same_object(case, f'{label}: the same call gives another result', a, b)
    return r[0]


def as_list(rng, t):
    return [list, tuple, np.array][rng.integers(3)](t)


def arguments(case):
    rng = case.rng
    o = topo(case, nan=False, profile=0, lo=12)
    ny, nx = o.data.shape
    z = np.array(o.data)
    fresh = lambda: rebuild(o, z.copy())
    x1, y1 = int(rng.integers(5, nx)), int(rng.integers(5, ny))
    names = [str(n) for n in rng.choice(list(Surface.ISO_PARAMETERS), 4, replace=False)]
    call(case, 'roughness_parameters', lambda p: fresh().roughness_parameters(p), list(names))
    call(case, 'roughness_parameters (same object)', o.roughness_parameters, list(names))
    call(case, 'crop', lambda b: fresh().crop(b, in_units=False), as_list(rng, [1, x1, 2, y1]))
    call(case, 'crop in units', lambda b: fresh().crop(b), as_list(rng, [0., x1 * o.step_x, o.step_y, y1 * o.step_y]))
    call(case, 'crop inplace', lambda b: fresh().crop(b, in_units=False, inplace=True), as_list(rng, [1, x1, 2, y1]))
    call(case, 'threshold', lambda t: fresh().threshold(t), as_list(rng, [5., 10.]))
    call(case, 'threshold inplace', lambda t: fresh().threshold(t, inplace=True), as_list(rng, [1., 10.]))
    call(case, 'homogeneity', lambda p: fresh().homogeneity(p, period=min(o.width_um, o.height_um) / 2.5), [['Sa', 'Sz'], ['Sdr'], ['Sku', 'Sq', 'Sa']][rng.integers(3)])
    call(case, 'depth', lambda p: (fresh().depth(4, plot=p), plt.close('all'))[0], [0, 2])
    p = o.get_horizontal_profile(0)
    call(case, 'profile crop', lambda b: p.crop(b, in_units=False), as_list(rng, [1, x1]))
    call(case, 'profile parameters', lambda b: p.roughness_parameters(b), ['Ra', 'Rz', 'Rk'])
    call(case, 'arithmetic', lambda a, b: a + b, fresh(), fresh())
    call(case, 'arithmetic', lambda a, b: [a - 2, 3 * a, a / 2.0, a * b][int(rng.integers(4)) * 0], fresh(), fresh())
    call(case, 'comparison', lambda a, b: a == b, fresh(), fresh())
    call(case, 'GaussianFilter', lambda a: GaussianFilter(4 * max(o.step_x, o.step_y), 'lowpass').apply(a), fresh())
    # numerical helpers
    x = np.sort(rng.normal(size=30))
    y = np.sin(3 * x) + .1 * rng.normal(size=30)
    q = rng.uniform(-1, 1, 5)
    perm = rng.permutation(30)
    xp, yp = x[perm], y[perm]
    call(case, 'interp1d', lambda a, b, c: np.asarray(mu.interp1d(a, b)(np.clip(c, a.min(), a.max()))), xp, yp, q)
    call(case, 'argclosest', lambda v, a: int(np.ravel(mu.argclosest(v, a))[0]), .3, xp)
    call(case, 'closest', lambda v, a: float(mu.closest(v, a)), .3, xp)
    call(case, 'otsu_threshold', lambda a: float(mu.otsu_threshold(a)), xp)
    call(case, 'argmax_all', lambda a: np.asarray(mu.argmax_all(a)), xp)
    call(case, 'argmin_all', lambda a: np.asarray(mu.argmin_all(a)), xp)
    xs = np.arange(60) * .5
    ys = 2 * np.sin(2 * np.pi * xs / 6.1 + 1) + .5
    call(case, 'get_period_fft_1d', lambda a, b: float(mu.get_period_fft_1d(a, b)), xs, ys)
    call(case, 'Sinusoid.from_fit', lambda a, b, c: float(mu.Sinusoid.from_fit(a, b, p0=c)(1.0)), xs, ys, [2., 6., 0., .5])
    call(case, 'interpolate_line', lambda a: np.asarray(mu.interpolate_line_on_2d_array(a, (0, 0), (3, 4), num_points=7)), z)
    # writers and readers
    suf, opt = bt.STORE[rng.integers(len(bt.STORE))]
    buf = io.BytesIO()
    fm.save(o, buf, suf, opt)
    content = buf.getvalue()
    call(case, f'load {suf}', lambda b: fm.load(b, format=suf), io.BytesIO(content))
    call(case, f'load {suf} by content', lambda b: fm.load(b), io.BytesIO(content))
    call(case, f'save {suf}', lambda s, k: fm.save(s, io.BytesIO(), suf, k), o, dict(opt))
    raw = RawSurface(z.copy(), o.step_x, o.step_y, metadata={'a': [1]})
    rb = freeze([raw.data, raw.metadata])
    s = Surface.from_raw_surface(raw)
    s.level(), s.Sa()
    case.check(freeze([raw.data, raw.metadata]) == rb, 'from_raw_surface and reads modified the raw surface')
    # batches
    paths = []
    for i in range(3):
        pth = os.path.join(case.tmp, f'f{i}{suf}')
        with open(pth, 'wb') as fh:
            fh.write(content)
        paths.append(pth)
    inp = [FileInput(f'g{i}{suf}', io.BytesIO(content)) for i in range(2)]
    table = pd.DataFrame({'file': [os.path.basename(p_) for p_ in paths] + [i.name for i in inp], 'power': range(5)})
    xl = os.path.join(case.tmp, 'data.xlsx')
    table.to_excel(xl, index=False)
    with open(xl, 'rb') as fh:
        xlsx = fh.read()
    mixed = [*paths, *inp]

    def run(files_, names_, thr, hom, extra):
        b = Batch(files_, additional_data=extra).threshold(thr).fill_nonmeasured().roughness_parameters(names_)
        b.homogeneity(hom, period=min(o.width_um, o.height_um) / 2.5)
        df = b.execute(multiprocessing=bool(extra), ignore_errors=True).get_dataframe()
        return df.sort_values('file').reset_index(drop=True)
    hom = ['Sa', 'Sz']
    thr = [2., 3.]
    call(case, 'batch', run, mixed, list(names), thr, hom, xl)
    call(case, 'batch', run, mixed, list(names), tuple(thr), hom, None)
    with open(xl, 'rb') as fh:
        case.check(fh.read() == xlsx, 'the additional data file was changed')
    for pth in paths:
        with open(pth, 'rb') as fh:
            case.check(fh.read() == content, 'a batch changed an input file')

    def extend(files_, ext):
        b = Batch([]).add_files(files_).add_dir(case.tmp, ext)
        return len(b)
    call(case, 'add_files', extend, mixed, [suf])
    call(case, 'from_dir', lambda e: len(Batch.from_dir(case.tmp, file_extensions=e)), [suf, '.xyz'])
    # a list that is edited after it was handed over has no influence
    lst = list(paths)
    b = Batch(lst).Sa()
    lst.append('nothing.sur')
    del lst[0]
    case.check(len(b) == 3, 'a batch follows later changes of the list of files')
    lst2 = list(names)
    b = Batch(paths).roughness_parameters(lst2)
    lst2.clear()
    df = b.execute(multiprocessing=False).get_dataframe()
    case.check(list(df.columns) == ['file', *names], 'a batch follows later changes of the list of parameters', columns=list(df.columns))


# -- threads ----------------------------------------------------------------------------------------------------------
def shared(case):
    rng = case.rng
    o = topo(case, lo=20, hi=60)
    z = np.array(o.data)
    reads = reads_of(rng, o)
    want = {}
    ref = rebuild(o, z.copy())
    for f in reads:
        want[f.label] = ops.evaluate(f, ref)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    n = int(rng.integers(2, 6))
    barrier = threading.Barrier(n)
    out = [[] for _ in range(n)]
    orders = [rng.permutation(len(reads)) for _ in range(n)]
    inside, peak = [0], [0]

    def work(k):
        barrier.wait()
        for i in orders[k]:
            inside[0] += 1
            peak[0] = max(peak[0], inside[0])
            out[k].append((reads[i].label, ops.evaluate(reads[i], o)))
            inside[0] -= 1
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    if peak[0] > 1:
        case.event('overlap', peak[0])
    for k in range(n):
        case.check(len(out[k]) == len(reads), 'a thread reading a shared surface did not finish')
        for label, v in out[k]:
            case.event('shared read')
            case.check(ops.equal_values(v, want[label], 1e-9), f'{label} read by several threads differs', got=v, want=want[label])
    case.check(gen.snap_diff(gen.snap(rebuild(o, z)), {**gen.snap(o), **({'metadata': '{}'} if isinstance(o, Surface) else {})}) is None,
               'reading by several threads changed the object')


STAGES = [Stage('layout', layout, 300, 9000, large=30), Stage('state', state, 360, 12000, large=16), Stage('files', files, 160, 4000),
          Stage('copies', copies, 400, 8000), Stage('results', results, 120, 1200), Stage('arguments', arguments, 64, 2400), Stage('shared', shared, 80, 2400)]
