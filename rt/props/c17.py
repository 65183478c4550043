"""C17: batch = single surface API."""
import os
import sys
import threading
import time
import warnings
from pathlib import Path
import numpy as np
import pandas as pd
from surfalize import Batch, Surface, FileInput
from rt import batches as bt
from rt.core import Stage

ID = 'C17'
RULE = ('Random chains of operations, parameters, bulk parameters and custom functions over random sets of files, buffers and '
        'folders, executed sequentially and by threads with injected delays and a short switch interval, in chained and legacy '
        'order, twice, and after extending the batch; every call of a custom function, every completion and every row is recorded '
        'and compared with the same steps applied to each file on its own.')
ASSUMPTIONS = ['Rows of threaded executions come in the order of completion. Inputs do not share one buffer object.',
               'Additional data are joined by file name; files without an entry are left out.']
REQUIRED = {'event:threaded': 150, 'event:sequential': 150, 'event:legacy order': 60, 'event:custom call': 800,
            'event:completion': 800, 'event:repeated': 100, 'event:excel': 10, 'event:additional data': 10, 'event:folder': 40,
            'event:buffer input': 100, 'event:raised': 5, 'event:same names': 20}


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def number(v):
    return np.nan if v is None else v


def same_value(case, what, got, want, **ctx):
    if isinstance(want, str):
        case.check(got == want, what, got=repr(got), want=want, **ctx)
    else:
        case.close(what, float(number(got)), float(number(want)), rtol=1e-9, atol=1e-13, **ctx)


def match_rows(case, what, rows, want, ordered):
    """rows / want: lists of dicts. Unordered: every expected row is used exactly once."""
    case.check(len(rows) == len(want), f'{what}: number of rows', got=len(rows), want=len(want))
    if not ordered:
        case.check(sorted(r['file'] for r in rows) == sorted(r['file'] for r in want), f'{what}: files',
                   got=sorted(r['file'] for r in rows), want=sorted(r['file'] for r in want))
    left = list(want)
    for i, r in enumerate(rows):
        if ordered:
            w = left[i]
            case.check(r['file'] == w['file'], f'{what}: order of the rows', row=i, got=r['file'], want=w['file'])
        else:
            cand = [w for w in left if w['file'] == r['file']]
            case.check(bool(cand), f'{what}: file occurs too often', file=r['file'])
            w = cand[0]
            if len(cand) > 1:      # same names: the one whose values agree
                def dist(w):
                    return sum(0 if (k in r and (r[k] == w[k] or abs(number(r[k]) - w[k]) <= 1e-9 * abs(w[k]) + 1e-13
                                                 or (r[k] != r[k] and w[k] != w[k]))) else 1 for k in w if k != 'file')
                w = min(cand, key=dist)
            left.pop([x is w for x in left].index(True))
        case.check(set(k for k in r) == set(w), f'{what}: columns', got=sorted(map(str, r)), want=sorted(w))
        for k, v in w.items():
            same_value(case, f'{what}: {k}', r[k], v, file=r['file'])


def jitter(rng):
    seed = int(rng.integers(1 << 30))
    lock = threading.Lock()
    state = np.random.default_rng(seed)

    def delay(s):
        with lock:
            d = float(state.choice([0, 0, .001, .004, .012]))
        if d:
            time.sleep(d)
    return delay


def run(case, rng, batch, inputs, steps, log, threads, preserve, what, want, errors, saveto=None):
    """Executes the batch and compares; returns the frame."""
    case.event('threaded' if threads else 'sequential')
    if not preserve:
        case.event('legacy order')
    done = []
    log.calls.clear()
    log.active = True
    kw = dict(multiprocessing=threads, on_file_complete=lambda r: done.append((dict(r), threading.get_ident())))
    if not preserve or rng.random() < .5:
        kw['preserve_chaining_order'] = preserve
    if threads and rng.random() < .5:
        kw.pop('multiprocessing')
    if saveto:
        kw['saveto'] = saveto
    interval = sys.getswitchinterval()
    before = threading.active_count()
    if threads:
        sys.setswitchinterval(float(rng.choice([1e-5, 1e-4, 5e-3])))
    try:
        res = quiet(lambda: batch.execute(**kw))
        err = None
    except Exception as e:
        res, err = None, e
    finally:
        sys.setswitchinterval(interval)
        t0 = time.monotonic()
        while threading.active_count() > before and time.monotonic() - t0 < 20:     # a failed execution leaves tasks behind
            time.sleep(.002)
        log.active = False
    if errors:
        case.event('raised')
        kinds = {type(e) for e in (errors if threads else errors[:1])}
        case.check(err is not None and type(err) in kinds, f'{what}: errors of single surfaces are raised', got=repr(err), want=[repr(e) for e in errors])
        return None
    if err is not None:
        raise err
    df = res.get_dataframe()
    cols = ['file'] + [c for s in steps for c in s.columns]
    case.check(list(df.columns) == cols, f'{what}: columns', got=list(map(str, df.columns)), want=cols)
    match_rows(case, what, df.to_dict('records'), want, not threads)
    # completions
    case.event('completion', len(done))
    case.count('event:completion', len(done) - 1)
    case.check(len(done) == len(inputs), f'{what}: on_file_complete is called once per file', got=len(done), want=len(inputs))
    match_rows(case, f'{what}: result passed to on_file_complete', [d for d, _ in done], want, not threads)
    if not threads:
        case.check(list(df['file']) == [d['file'] for d, _ in done], f'{what}: rows follow the completions')
    if threads and [d['file'] for d, _ in done] != [i.name for i in inputs]:
        case.event('out of order')
    # custom functions: per file one surface, every function once and in the order of the chain
    groups = {}
    for key, s, tid in log.calls:
        groups.setdefault(id(s), []).append((key, tid))
    order = steps if preserve else [x for x in steps if x.is_op] + [x for x in steps if not x.is_op]
    keys = [s.key for s in order if hasattr(s, 'key')]
    case.count('event:custom call', len(log.calls))
    if keys:
        case.check(len(groups) == len(inputs), f'{what}: every file has its own surface', got=len(groups), want=len(inputs))
    for g in groups.values():
        case.check([k for k, _ in g] == keys, f'{what}: custom functions are called once and in order', got=[k for k, _ in g], want=keys)
        case.check(len({t for _, t in g}) == 1, f'{what}: a file is processed by one thread')
    log.calls.clear()
    return df


def build(case, rng, inputs):
    batch = Batch([i.arg for i in inputs]) if rng.random() < .6 else Batch([])
    if len(batch) == 0 and inputs:
        k = int(rng.integers(0, len(inputs) + 1))
        for i in inputs[:k]:
            case.check(batch.add_files(i.arg if rng.random() < .5 else [i.arg]) is batch, 'add_files can be chained')
        if k < len(inputs):
            batch.add_files([i.arg for i in inputs[k:]])
    case.check(len(batch) == len(inputs), 'length of the batch', got=len(batch), want=len(inputs))
    return batch


def results(inputs, steps, preserve, log):
    log.active = False
    rows, errors = [], []
    for i in inputs:
        row, e = bt.reference(i, steps, preserve)
        if e is None:
            rows.append(row)
        else:
            errors.append(e)
    return rows, errors


def general(case):
    rng = case.rng
    unique = bool(rng.random() < .85)
    n = int(rng.choice([1, 2, 3, 5, 8, 12])) if case.idx % 25 else int(rng.integers(33, 150))
    if n > 30:
        case.event('many files')
    nan = float(rng.choice([0, 0, .5]))
    inputs = bt.inputs(rng, case.tmp, n, nan=nan, unique=unique)
    if len({i.name for i in inputs}) < n:
        case.event('same names')
    for i in inputs:
        if isinstance(i.arg, FileInput):
            case.event('buffer input')
    log = bt.Log()
    log.active = False
    steps = bt.chain(rng, log, inputs[int(rng.integers(n))].open(), jitter(rng), first_custom=bool(rng.random() < .5), cheap=n > 3)
    for s in steps:
        case.event('step ' + s.label.split('(')[0].split(' ')[0])
    case.note(n=n, names=[i.name for i in inputs], steps=[s.label for s in steps], nans=nan)
    batch = build(case, rng, inputs)
    for s in steps:
        case.check(s.register(batch) is batch, f'{s.label} can be chained')
    refs = {}
    modes = [(t, p) for t in (False, True) for p in (True, False)]
    modes = [modes[i] for i in rng.permutation(4)[:rng.integers(2, 5)]]
    if len({t for t, _ in modes}) == 1:
        modes.append((not modes[0][0], modes[0][1]))
    seen = {}
    for threads, preserve in modes:
        if preserve not in refs:
            refs[preserve] = results(inputs, steps, preserve, log)
        want, errors = refs[preserve]
        df = run(case, rng, batch, inputs, steps, log, threads, preserve, f'{"threaded" if threads else "sequential"}, '
                 f'{"chained" if preserve else "legacy"} order', want, errors)
        if df is not None:
            seen[threads, preserve] = df
    # once more
    threads, preserve = modes[int(rng.integers(len(modes)))]
    want, errors = refs[preserve]
    case.event('repeated')
    df = run(case, rng, batch, inputs, steps, log, threads, preserve, 'executed again', want, errors)
    if df is not None and not threads and (threads, preserve) in seen:
        case.check(df.equals(seen[threads, preserve]), 'repeated sequential execution gives the identical table')
    # extended batch
    if rng.random() < .5 and not errors:
        more = bt.inputs(rng, os.path.join(case.tmp, 'more'), int(rng.integers(0, 3)), unique=False)
        batch.add_files([i.arg for i in more])
        inputs2 = inputs + more
        last = bt.par_step(rng, {c.removesuffix('_mean') for s in steps for c in s.columns}, True)
        last.register(batch)
        steps2 = steps + [last]
        want, errors = results(inputs2, steps2, True, log)
        run(case, rng, batch, inputs2, steps2, log, bool(rng.random() < .5), True, 'extended batch', want, errors)
    for i in inputs:
        if isinstance(i.arg, FileInput):
            case.check(i.arg.data.tell() == 0 and i.arg.data.getvalue() == i.content, 'buffers are left as they were')
        else:
            with open(i.arg, 'rb') as fh:
                case.check(fh.read() == i.content, 'files are left as they were')


def tables(case):
    """Folders, additional data, Excel files, patterns in file names."""
    rng = case.rng
    n = int(rng.integers(1, 7))
    names = [f'P{int(rng.integers(1, 90))}_N{i}' for i in range(n)]
    inputs = bt.inputs(rng, case.tmp, n, buffers=False, names=names)
    d = os.path.join(case.tmp, 'd')
    other = os.path.join(case.tmp, 'd', 'sub')
    os.makedirs(other)
    for q in ('notes.txt', 'sub/hidden.sur', 'x.SUR.bak', 'README'):
        with open(os.path.join(d, q), 'wb') as fh:
            fh.write(inputs[0].content)
    os.makedirs(os.path.join(d, 'folder'))
    log = bt.Log()
    log.active = False
    steps = bt.chain(rng, log, inputs[0].open(), None, n=int(rng.integers(1, 4)), cheap=True)
    if not any(s.columns for s in steps):
        steps.append(bt.par_step(rng, set(), True))
    case.event('folder')
    sufs = sorted({i.fmt for i in inputs})
    pick = None
    if rng.random() < .5:
        pick = [s for s in sufs if rng.random() < .7] or [sufs[0]]
    chosen = [i for i in inputs if pick is None or i.fmt in pick]
    arg = pick if pick is None or len(pick) > 1 or rng.random() < .5 else pick[0]
    add = None
    extra = {}
    if rng.random() < .5:
        case.event('additional data')
        add = os.path.join(case.tmp, 'data.xlsx')
        rows = [i.name for i in inputs if rng.random() < .85] + ['unknown.sur'] + sorted({i.name.swapcase() for i in inputs} | {'x' + inputs[0].name})
        rows = [rows[k] for k in rng.permutation(len(rows))]
        extra = {r: dict(power=float(rng.integers(1, 100)) / 4, text=f'µ {k}') for k, r in enumerate(rows)}
        pd.DataFrame([dict(file=r, **extra[r]) for r in rows])[['power', 'file', 'text']].to_excel(add, index=False)
    if rng.random() < .6:
        batch = Batch.from_dir(d if rng.random() < .5 else Path(d), **({} if arg is None and rng.random() < .5 else {'file_extensions': arg}),
                               **({'additional_data': add} if add else {}))
    else:
        batch = Batch([], **({'additional_data': add} if add else {}))
        case.check(batch.add_dir(d, **({} if arg is None else {'file_extensions': arg})) is batch, 'add_dir can be chained')
    case.note(n=n, names=[i.name for i in inputs], pick=pick, add=bool(add), steps=[s.label for s in steps])
    case.check(len(batch) == len(chosen), 'files of a folder', got=len(batch), want=[i.name for i in chosen])
    for s in steps:
        s.register(batch)
    pattern = None
    r = rng.random()
    if r < .5:
        pattern = '<power in name|float|P>_<number|int|N>' if rng.random() < .5 else '<p|int|P>_'
        pattern = pattern.replace('power in name', 'pw')
    if pattern and r < .25:
        case.check(batch.extract_from_filename(pattern) is batch, 'extract_from_filename can be chained')
    want, errors = results(chosen, steps, True, log)
    want = [w for w in want if not add or w['file'] in extra]
    if errors:
        case.count('skipped: errors')
        return
    if not want:
        return
    saveto = os.path.join(case.tmp, 'out.xlsx') if rng.random() < .5 else None
    threads = bool(rng.random() < .5)
    res = quiet(lambda: batch.execute(multiprocessing=threads, **({'saveto': saveto if rng.random() < .5 else Path(saveto)} if saveto else {})))
    if pattern and r >= .25:
        before = res.get_dataframe().copy()
        case.check(res.extract_from_filename(pattern) is None, 'extraction from a result works in place')
        case.check(before.equals(res.get_dataframe()[list(before.columns)]), 'extraction leaves the other columns alone')
    names_ = {}
    for w in want:
        if add:
            w.update(extra[w['file']])
        if pattern:
            p, q = w['file'].split('.')[0].split('_')
            names_ = {'pw': float(p[1:]), 'number': int(q[1:])} if 'pw' in pattern else {'p': int(p[1:])}
            w.update(names_)
    df = res.get_dataframe()
    match_rows(case, 'table', df.to_dict('records'), want, False)
    if pattern:
        at = list(df.columns).index('file')
        case.check(list(df.columns)[at + 1:at + 1 + len(names_)] == list(names_), 'values from the file name stand next to it', got=list(df.columns))
    case.check(len(res.index) == len(want) and list(res.columns) == list(df.columns) and res['file'].equals(df['file']), 'a result behaves like its table')
    if saveto:
        case.event('excel')
        back = pd.read_excel(saveto)
        back = back[[c for c in back.columns if not str(c).startswith('Unnamed')]]
        if pattern and r >= .25:
            want = [{k: v for k, v in w.items() if k not in names_} for w in want]
        match_rows(case, 'Excel file', back.to_dict('records'), want, False)


STAGES = [Stage('general', general, 450, 5500, timeout=120, hang_violates=True), Stage('tables', tables, 100, 1500, timeout=60)]
