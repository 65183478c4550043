"""C18: errors inside a batch."""
import io
import os
import sys
import threading
import time
import contextlib
import functools
import warnings
import numpy as np
import pandas as pd
from surfalize import Batch, FileInput, Surface
from surfalize.exceptions import BatchError, CalculationError, FileFormatError, FittingError
from rt import batches as bt, formats as fm
from rt.core import Stage
from rt.props.c17 import match_rows, quiet

ID = 'C18'
RULE = ('Random chains over random files where chosen parameters (real methods wrapped at run time, custom functions, real fits of '
        'textureless surfaces) raise calculation errors for chosen files, alone and together, and where operations, files, file '
        'contents, completion hooks and definitions are faulty; sequential and threaded, with and without ignoring errors; the '
        'batch is executed again after the fault is gone.')
ASSUMPTIONS = ['Errors of parameters are calculation errors (CalculationError and its subclasses); others may be raised in either mode.']
REQUIRED = {'event:parameter fault': 150, 'event:ignored': 150, 'event:raised': 150, 'event:threaded': 200, 'event:sequential': 200,
            'event:two results': 20, 'event:custom fault': 40, 'event:operation fault': 40, 'event:bad file': 40, 'event:recovered': 100,
            'event:hook fault': 10, 'event:other error': 40, 'event:definition': 60, 'event:real fit': 30}


class Special(FittingError):
    pass


class Fault:
    """Makes a parameter of Surface fail for the surfaces with the given keys (keys survive the operations used here)."""

    def __init__(self, name, fails, exc):
        self.name, self.fails, self.exc = name, fails, exc
        self.hits = 0
        self.armed = False          # installed before the batch is made, so that it is met however the batch finds the method

    def __enter__(self):
        self.klass = next(k for k in Surface.__mro__ if self.name in k.__dict__)
        self.orig = self.klass.__dict__[self.name]

        @functools.wraps(self.orig)
        def wrapped(s, *a, **k):
            if self.armed and self.fails(s):
                self.hits += 1
                raise self.exc
            return self.orig(s, *a, **k)
        setattr(self.klass, self.name, wrapped)
        return self

    def __exit__(self, *a):
        setattr(self.klass, self.name, self.orig)

    def during(self, fn):
        self.armed = True
        try:
            return fn()
        finally:
            self.armed = False


def with_stack(fn):
    @functools.wraps(fn)
    def stage(case):
        with contextlib.ExitStack() as stack:
            fn(case, stack)
    return stage


def wait_threads(before):
    t0 = time.monotonic()
    while threading.active_count() > before and time.monotonic() - t0 < 20:
        time.sleep(.002)


def execute(case, rng, batch, threads, **kw):
    """(frame, exception)"""
    case.event('threaded' if threads else 'sequential')
    before = threading.active_count()
    interval = sys.getswitchinterval()
    if threads:
        sys.setswitchinterval(float(rng.choice([1e-5, 5e-3])))
    try:
        return quiet(lambda: batch.execute(multiprocessing=threads, **kw)).get_dataframe(), None
    except Exception as e:
        return None, e
    finally:
        sys.setswitchinterval(interval)
        wait_threads(before)


SIMPLE = ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Ssw', 'projected_area', 'depth', 'period', 'orientation', 'Sal',
          'cavity_volume', 'stepheight')
ARGS = {'depth': dict(nprofiles=5)}


def setup(case, rng, n=None):
    n = n or int(rng.choice([1, 2, 4, 7]))
    inputs = bt.inputs(rng, case.tmp, n)
    for i in inputs:       # the number of rows and columns identify the file; they are left alone by the steps used here
        i.shape = i.open().data.shape
    return inputs


def steps_for(rng, names):
    steps = []
    for k, name in enumerate(names):
        cols = [f'{name}_mean', f'{name}_std'] if name == 'depth' else [name]

        def apply(s, row, name=name, cols=cols):
            v = getattr(s, name)(**ARGS.get(name, {}))
            if name == 'depth':
                row[cols[0]], row[cols[1]] = v
            else:
                row[cols[0]] = v
        steps.append(bt.Step(name, False, lambda b, name=name: getattr(b, name)(**ARGS.get(name, {})), apply, cols))
        if rng.random() < .4:
            op = str(rng.choice(['center', 'zero', 'invert', 'level']))
            steps.append(bt.Step(op, True, lambda b, op=op: getattr(b, op)(), lambda s, row, op=op: getattr(s, op)(inplace=True)))
    return steps


def plain(inputs, steps, failing=lambda inp, step: False):
    """Expected rows; the columns of failing (file, step) pairs are NaN. Steps failing on their own count as well."""
    rows, natural = [], []
    for i in inputs:
        s = i.open()
        row = dict(file=i.name)
        for st in steps:
            if not st.is_op and failing(i, st):
                row.update({c: np.nan for c in st.columns})
                continue
            try:
                st.apply(s, row)
            except CalculationError as e:
                row.update({c: np.nan for c in st.columns})
                natural.append((i, st, e))
        rows.append(row)
    return rows, natural


@with_stack
def parameters(case, stack):
    rng = case.rng
    inputs = setup(case, rng)
    names = [str(x) for x in rng.permutation(SIMPLE)[:rng.integers(1, 5)]]
    if rng.random() < .3 and 'depth' not in names:
        names[0] = 'depth'
    steps = steps_for(rng, names)
    # the faults: which step fails for which files
    k = int(rng.integers(len(names)))
    bad = names[k]
    which = {i.shape for i in inputs if rng.random() < .5} or {inputs[0].shape}
    exc = [CalculationError('injected'), FittingError('injected'), Special('injected')][rng.integers(3)]
    custom = bool(rng.random() < .3)
    hits = []
    if custom:
        case.event('custom fault')
        partial = bool(rng.random() < .3)

        def par(s):
            if par.armed and s.data.shape in which:
                hits.append(1)
                raise exc
            return {'own': float(s.data.max()), 'second': float(s.data.min())} if partial else {'own': float(s.data.max())}
        par.armed = False
        cst = bt.Step('custom', False, lambda b: b.custom_parameter(par), lambda s, row: row.update(par(s)), ['own', 'second'] if partial else ['own'])
        steps.insert(int(rng.integers(len(steps) + 1)), cst)
    fault = stack.enter_context(Fault(bad, lambda s: s.data.shape in which, exc)) if not custom else None
    batch = Batch([i.arg for i in inputs])
    for s in steps:
        s.register(batch)
    want_ok, natural = plain(inputs, steps)
    if custom:
        failing = lambda i, st: st is cst and i.shape in which
    else:
        failing = lambda i, st: st.label == bad and i.shape in which
        case.event('parameter fault')
        if bad == 'depth':
            case.event('two results')
    # parameters that build on the failing one (aspect_ratio on depth and period, ...) fail with it: evaluate under the fault
    def under(fn):
        if custom:
            par.armed = True
            try:
                return fn()
            finally:
                par.armed = False
        return fault.during(fn)
    want, nat2 = under(lambda: plain(inputs, steps, failing))
    case.note(n=len(inputs), steps=[s.label for s in steps], bad=bad if not custom else 'custom', which=sorted(map(list, which)), exc=type(exc).__name__)
    modes = [(t, p) for t in (False, True) for p in (True, False)]
    for j in rng.permutation(4)[:3]:
        threads, ignore = modes[j]
        kw = {} if ignore and rng.random() < .5 else {'ignore_errors': ignore}
        df, err = under(lambda: execute(case, rng, batch, threads, **kw))
        if ignore:
            case.event('ignored')
            case.check(err is None, 'errors are ignored', error=repr(err), threads=threads)
            if custom and all(i.shape in which for i in inputs):      # no row has the column
                df = df.reindex(columns=list(df.columns) + [c for c in cst.columns if c not in df.columns])
            match_rows(case, f'errors ignored ({"threaded" if threads else "sequential"})', df.to_dict('records'), want, not threads)
        else:
            case.event('raised')
            kinds = {type(exc)} | {type(e) for _, _, e in nat2}
            case.check(type(err) in kinds, 'errors are raised', got=repr(err), want=sorted(k.__name__ for k in kinds), threads=threads)
            if not nat2:
                case.check(err is exc, 'the error itself is raised', got=repr(err))
    # the fault is gone
    case.event('recovered')
    df, err = execute(case, rng, batch, bool(rng.random() < .5), ignore_errors=True)
    case.check(err is None, 'after the fault: error', error=repr(err))
    match_rows(case, 'after the fault', df.to_dict('records'), want_ok, False)
    if natural:
        case.event('real fit')
        df, err = execute(case, rng, batch, bool(rng.random() < .5), ignore_errors=False)
        case.check(isinstance(err, CalculationError), 'real calculation error is raised', got=repr(err))


def real(case):
    """Surfaces without texture: fits that fail by themselves."""
    rng = case.rng
    inputs = []
    for i in range(int(rng.integers(1, 5))):
        r = rng.integers(3)
        ny, nx = int(rng.integers(30, 40)), int(rng.integers(30, 40))
        z = rng.normal(size=(ny, nx)) if r == 0 else np.zeros((ny, nx)) + rng.normal() if r == 1 else \
            np.sin(np.arange(nx) * 2 * np.pi / 7.3)[None, :] + .01 * rng.normal(size=(ny, nx))
        b = io.BytesIO()
        fm.save(Surface(z, 1, 1), b, '.sflz', dict(dtype='<f8'))
        inputs.append(bt.Input(FileInput(f'f{i}', io.BytesIO(b.getvalue()), '.sflz'), f'f{i}', b.getvalue(), '.sflz'))
    names = [str(x) for x in rng.permutation(['orientation', 'depth', 'period', 'aspect_ratio', 'Sa', 'Sdr'])[:rng.integers(2, 6)]]
    steps = steps_for(rng, names)
    case.note(names=names, n=len(inputs))
    batch = Batch([i.arg for i in inputs])
    for s in steps:
        s.register(batch)
    try:
        want, natural = quiet(lambda: plain(inputs, steps))
        other = None
    except Exception as e:
        other = e
    threads = bool(rng.random() < .5)
    df, err = execute(case, rng, batch, threads)
    if other is not None:
        case.count('other error: ' + type(other).__name__)
        case.check(err is not None, 'an error that is no calculation error is raised', got=None if df is None else df.to_dict('records'))
        return
    case.event('real fit')
    case.check(err is None, 'errors are ignored', error=repr(err))
    match_rows(case, 'fits that fail', df.to_dict('records'), want, not threads)
    df, err = execute(case, rng, batch, not threads, ignore_errors=False)
    if natural:
        case.event('raised')
        case.check(isinstance(err, CalculationError), 'error of a fit is raised', got=repr(err))
    else:
        match_rows(case, 'fits', df.to_dict('records'), want, threads)


class Odd(Exception):
    pass


@with_stack
def faults(case, stack):
    """Everything that is no parameter: operations, files, hooks."""
    rng = case.rng
    inputs = setup(case, rng)
    n = len(inputs)
    names = [str(x) for x in rng.permutation(SIMPLE[:9])[:rng.integers(1, 3)]]
    steps = steps_for(rng, names)
    want, _ = plain(inputs, steps)
    kind = ('operation', 'custom operation', 'missing', 'damaged', 'unknown', 'hook', 'arguments', 'other error', 'holes')[case.idx % 9]
    victim = int(rng.integers(n))
    shape = inputs[victim].shape
    threads, ignore = bool(rng.random() < .5), bool(rng.random() < .6)
    case.note(n=n, fault=kind, victim=victim, threads=threads, ignore=ignore, steps=[s.label for s in steps])
    exc, fault = None, None
    if kind in ('operation', 'custom operation'):
        exc = [CalculationError('op'), ValueError('op'), Odd('op'), FittingError('op')][rng.integers(4)]
    elif kind == 'other error':
        # only calculation errors are ignored
        exc = [ValueError('par'), Odd('par'), ZeroDivisionError(), KeyError('par'), TypeError('par'), np.linalg.LinAlgError('par'),
               RuntimeError('par'), IndexError('par'), MemoryError()][rng.integers(9)]
    if kind in ('operation', 'other error'):
        fault = stack.enter_context(Fault('zero' if kind == 'operation' else names[int(rng.integers(len(names)))], lambda s: s.data.shape == shape, exc))
    batch = Batch([i.arg for i in inputs])
    kw = {}
    armed = {'on': True}
    expected = None
    if kind in ('operation', 'custom operation'):
        case.event('operation fault')
        expected = type(exc)

        def op(s):
            if armed['on'] and s.data.shape == shape:
                raise exc
        if kind == 'custom operation':
            batch.custom_operation(op)
        else:
            batch.zero()
            for i, w in enumerate(want):
                s = inputs[i].open()
                s.zero(inplace=True)
                for st in steps:
                    st.apply(s, w)
    elif kind in ('missing', 'damaged', 'unknown'):
        case.event('bad file')
        p = os.path.join(case.tmp, 'bad' + {'missing': '.sur', 'damaged': '.sdf', 'unknown': '.foo'}[kind])
        if kind == 'missing':
            arg, expected = p, FileNotFoundError
        else:
            data = inputs[0].content[:int(rng.integers(5, 60))] if kind == 'damaged' else b'nothing at all'
            with open(p, 'wb') as fh:
                fh.write(data)
            arg = p if rng.random() < .5 else FileInput('bad', io.BytesIO(data), '.sdf' if kind == 'damaged' else None)
            expected = Exception
        at = int(rng.integers(n + 1))
        batch = Batch([i.arg for i in inputs[:at]] + [arg] + [i.arg for i in inputs[at:]])
    elif kind == 'other error':
        case.event('other error')
        expected = type(exc)
    elif kind == 'holes':
        case.event('other error')
        expected = ValueError
        z = inputs[victim].open()
        z = np.array(z.data, float)
        z[int(rng.integers(z.shape[0])), int(rng.integers(z.shape[1]))] = np.nan
        b = io.BytesIO()
        fm.save(Surface(z, 1.0, 1.0), b, '.sflz', dict(dtype='<f8'))
        arg = FileInput('holes', io.BytesIO(b.getvalue()), '.sflz')
        batch = Batch([arg if k == victim else i.arg for k, i in enumerate(inputs)])
    elif kind == 'hook':
        case.event('hook fault')
        expected = Odd

        def hook(row):
            if armed['on']:
                raise Odd()
        kw['on_file_complete'] = hook
    elif kind == 'arguments':
        case.event('definition')
        expected = TypeError
    for s in steps:
        s.register(batch)
    if kind == 'arguments':
        try:
            r = rng.integers(3)
            if r == 0:
                batch.Vmc(nonsense=3)
            elif r == 1:
                batch.crop()
            else:
                batch.filter()
        except TypeError:
            return
    if fault is not None:
        df, err = fault.during(lambda: execute(case, rng, batch, threads, ignore_errors=ignore, **kw))
    else:
        df, err = execute(case, rng, batch, threads, ignore_errors=ignore, **kw)
    case.check(err is not None, f'{kind}: no error and no complete result', got=None if df is None else df.to_dict('records'))
    case.check(isinstance(err, expected), f'{kind}: kind of error', got=repr(err), want=expected.__name__)
    armed['on'] = False
    if kind in ('operation', 'custom operation', 'hook', 'other error'):
        case.event('recovered')
        df, err = execute(case, rng, batch, not threads, **kw)
        case.check(err is None, f'after the {kind} fault', error=repr(err))
        match_rows(case, f'after the {kind} fault', df.to_dict('records'), want, threads)


def definitions(case):
    """Invalid batches are refused when they are defined and stay as they were."""
    rng = case.rng
    case.event('definition')
    inputs = setup(case, rng, int(rng.integers(1, 3)))
    names = [str(x) for x in rng.permutation(SIMPLE[:9])[:rng.integers(1, 4)]]
    steps = steps_for(rng, names)
    want, _ = plain(inputs, steps)
    case.note(names=names, steps=[s.label for s in steps])
    batch = Batch([i.arg for i in inputs])
    case.raises('a batch without steps', BatchError, lambda: batch.execute())
    case.raises('a batch without steps', BatchError, lambda: batch.execute(multiprocessing=False))

    def own(s):
        return {'own': 1.0}

    def own2(s):
        return {'own2': 2.0}
    n_own = 0
    for s in steps:
        s.register(batch)
        if rng.random() < .4 and not n_own:
            batch.custom_parameter(own)
            n_own = 1
        done = [x.label for x in steps[:steps.index(s) + 1] if not x.is_op]
        if done and rng.random() < .7:
            d = str(rng.choice(done))
            r = rng.integers(4)
            if r == 0:
                case.raises('a parameter registered twice', BatchError, lambda: getattr(batch, d)())
            elif r == 1:
                case.raises('a parameter registered twice', BatchError, lambda: getattr(batch, d)(custom_name=d))
            elif r == 2:
                case.raises('a custom name equal to a registered parameter', BatchError, lambda: batch.Smc(10, custom_name=d))
            else:
                case.raises('a parameter registered twice', BatchError, lambda: batch.roughness_parameters([d]))
        if n_own and rng.random() < .5:
            case.raises('a custom parameter registered twice', BatchError, lambda: batch.custom_parameter(own))
    case.raises('an unknown method', AttributeError, lambda: getattr(batch, str(rng.choice(['Sfoo', 'plot_2d_', 'roughness']))))
    if rng.random() < .4:
        batch.custom_parameter(own2)
        for w in want:
            w['own2'] = 2.0
    if n_own:
        for w in want:
            w['own'] = 1.0
    df, err = execute(case, rng, batch, bool(rng.random() < .5))
    case.check(err is None, 'refused definitions leave the batch as it was', error=repr(err))
    match_rows(case, 'after refused definitions', df.to_dict('records'), want, False)
    b2 = Batch([i.arg for i in inputs])

    def unknown():
        b2.roughness_parameters(['Sa', 'Sfoo'])
        b2.execute(multiprocessing=bool(rng.random() < .5))
    case.raises('an unknown name among the parameters', Exception, unknown)
    # additional data
    p = os.path.join(case.tmp, 'a.xlsx')
    pd.DataFrame({str(rng.choice(['File', 'name', 'files'])): [i.name for i in inputs], 'power': range(len(inputs))}).to_excel(p, index=False)
    case.raises('additional data without file names', ValueError, lambda: Batch([i.arg for i in inputs], additional_data=p))
    case.raises('missing additional data', FileNotFoundError, lambda: Batch([], additional_data=os.path.join(case.tmp, 'no.xlsx')))


STAGES = [Stage('parameters', parameters, 400, 6000, timeout=90, hang_violates=True), Stage('real', real, 80, 1200, timeout=90, hang_violates=True),
          Stage('faults', faults, 400, 6000, timeout=90, hang_violates=True), Stage('definitions', definitions, 100, 1500, timeout=60)]
