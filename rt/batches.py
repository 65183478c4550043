"""Inputs and chains of steps for batches, together with what they mean for a single surface (the reference)."""
import io
import os
import threading
from pathlib import Path

import numpy as np
import surfalize.batch
from surfalize import FileInput, Surface
from surfalize.exceptions import CalculationError
from rt import formats as fm, gen

STORE = [('.sflz', dict(dtype='<f8')), ('.sflz', dict(dtype='<f8', compression='lzma')), ('.sdf', {}), ('.sur', {}), ('.sur', dict(compressed=True)),
         ('.tmd', {}), ('.al3d', {})]


class Input:
    """One input of a batch; `open()` loads the surface on its own."""

    def __init__(self, arg, name, content, fmt):
        self.arg, self.name, self.content, self.fmt = arg, name, content, fmt

    def open(self):
        return fm.load(io.BytesIO(self.content), format=self.fmt)


def heights(rng, nan):
    ny, nx = int(rng.integers(10, 26)), int(rng.integers(10, 26))
    step = float(rng.choice([0.25, 1.0, 0.4]))
    r = rng.random()
    if r < .4:
        z = gen.grating(rng, ny, nx, float(rng.uniform(0, 90)), float(rng.uniform(3, 6)) * step, step, amp=float(rng.uniform(.5, 5)), noise=.05)
    else:
        z = rng.normal(size=(ny, nx)) * float(rng.uniform(.1, 5)) + np.linspace(0, float(rng.uniform(0, 3)), nx) + float(rng.uniform(-2, 2))
    if nan:
        z[gen.nan_mask(rng, ny, nx)] = np.nan
        z[0, 0] = z[-1, -1] = z[0, -1] = 1.0
    return z, step, step if rng.random() < .8 else 2 * step


def inputs(rng, root, n, nan=0.0, buffers=True, unique=True, names=None):
    out, used = [], set()
    for i in range(n):
        if out and not unique and names is None and rng.random() < .25:      # the same measurement again
            p = out[rng.integers(len(out))]
            out.append(Input(p.arg if not isinstance(p.arg, FileInput) else FileInput(p.name, io.BytesIO(p.content), p.fmt), p.name, p.content, p.fmt))
            continue
        z, sx, sy = heights(rng, rng.random() < nan)
        suf, o = STORE[rng.integers(len(STORE))]
        s = Surface(z, sx, sy)
        b = io.BytesIO()
        fm.save(s, b, suf, o)
        content = b.getvalue()
        if names is not None:
            name = names[i] + suf
        elif unique:
            name = f'{rng.choice(["m", "Probe µ", "a b", "x.y"])}{i}{suf}'
        else:
            name = f'm{rng.integers(3)}{suf}'
        r = rng.random()
        if buffers and r < .3:
            kind = rng.integers(3)
            if kind == 0:
                f = FileInput(name, io.BytesIO(content))
            elif kind == 1:
                f = FileInput(name=name + ' (buffer)', data=io.BytesIO(content), format=suf)
            else:
                f = FileInput(name, io.BytesIO(content), suf.upper())
            out.append(Input(f, f.name, content, suf))
            continue
        d = os.path.join(root, f'd{i}' if not unique else 'd')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        with open(p, 'wb') as fh:
            fh.write(content)
        out.append(Input(Path(p) if rng.random() < .5 else p, name, content, suf))
    return out


class Log:
    """Calls of the custom functions, in the order in which they happened."""

    def __init__(self):
        self.calls = []
        self.active = False
        self.lock = threading.Lock()

    def add(self, key, surface):
        with self.lock:
            self.calls.append((key, surface, threading.get_ident()))      # keeps the surface alive: identities stay distinct


class Step:
    """register(batch) chains the step; apply(surface, row) is its meaning."""

    def __init__(self, label, is_op, register, apply, columns=()):
        self.label, self.is_op, self.register, self.apply, self.columns = label, is_op, register, apply, list(columns)


def op_step(rng):
    p = float(rng.uniform(1, 15))
    cut = float(rng.uniform(1, 4))
    table = [('center', (), {}), ('zero', (), {}), ('invert', (), {}), ('invert', (), {}), ('level', (), {}), ('detrend_polynomial', (2,), {}),
             ('detrend_polynomial', (), dict(degree=int(rng.integers(1, 4)))), ('remove_outliers', (), dict(n=float(rng.uniform(1.5, 3)))),
             ('remove_outliers', (2,), dict(method='median')), ('threshold', (p,), {}), ('threshold', (), dict(threshold=(p, p / 2))),
             ('fill_nonmeasured', (), {}), ('fill_nonmeasured', (), dict(method='linear')), ('fill_nonmeasured', (), {}),
             ('rotate', (float(rng.uniform(-90, 90)),), {}), ('zoom', (float(rng.uniform(1.1, 1.6)),), {}),
             ('crop', ((0, 8, 0, 7),), dict(in_units=False)), ('filter', ('lowpass', cut), {}), ('filter', ('highpass',), dict(cutoff=cut)),
             ('filter', ('bandpass', cut, 2 * cut), {}), ('align', (), dict(method='fft')), ('align', ('x',), dict(method='fft')),
             ('stepheight_level', (), {})]
    name, a, k = table[rng.integers(len(table))]

    def apply(s, row):
        getattr(s, name)(*a, inplace=True, **k)
    # arguments that make no sense in a batch are refused or without effect
    moot = {} if rng.random() < .8 else dict(inplace=bool(rng.random() < .3))
    if moot and name in ('level', 'detrend_polynomial') and rng.random() < .5:
        moot['return_trend'] = True

    def register(b):
        if moot:
            try:
                return getattr(b, name)(*a, **moot, **k)
            except (TypeError, ValueError):
                pass
        return getattr(b, name)(*a, **dict(k))
    return Step(f'{name}{a}{k or ""}{moot or ""}', True, register, apply)


def par_table(rng):
    p, q = sorted(rng.choice([2.5, 5., 10., 20., 50., 70., 80., 95.], 2, replace=False).tolist())
    t = [(n, (), {}) for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2',
                               'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Ssw', 'projected_area', 'surface_area', 'stepheight', 'period', 'Sal', 'Str',
                               'orientation', 'depth', 'aspect_ratio', 'cavity_volume', 'Vmp', 'Vmc', 'Vvv', 'Vvc', 'Sxp', 'Sdc')]
    t += [('Vmp', (p,), {}), ('Vmc', (p, q), {}), ('Vmc', (), dict(p=p, q=q)), ('Vvv', (), dict(q=q)), ('Vvc', (p, q), {}), ('Sxp', (p,), dict(q=q)),
          ('Sdc', (), dict(p=p, q=q)), ('Smr', (float(rng.normal()),), {}), ('Smc', (), dict(mr=p)), ('Sal', (), dict(s=.4)), ('Str', (.35,), {}),
          ('cavity_volume', (), dict(threshold=.3)), ('depth', (), dict(nprofiles=7)), ('depth', (5,), {}),
          ('orientation', (), dict(method='fft')), ('homogeneity', (), dict(parameters=['Sa', 'Sz']))]
    return t


# half of the chains use plain statistics only
CHEAP = {'Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Ssw', 'projected_area', 'surface_area', 'Sal', 'Str', 'period',
         'orientation', 'depth', 'aspect_ratio', 'cavity_volume', 'stepheight'}     # without the material ratio curve


def par_step(rng, taken, cheap=False):
    t = par_table(rng)
    for _ in range(40):
        name, a, k = t[rng.integers(len(t))]
        if cheap and name not in CHEAP:
            continue
        custom = None
        if name in taken or rng.random() < .2:
            custom = f'{name} {"µ" if rng.random() < .3 else "at"} {len(taken)}'
        col = custom or name
        taken.add(col)
        cols = [f'{col}_mean', f'{col}_std'] if name == 'depth' else [col]

        def apply(s, row):
            try:
                v = getattr(s, name)(*a, **k)
            except CalculationError:
                v = (np.nan, np.nan) if name == 'depth' else np.nan
            if name == 'depth':
                row[cols[0]], row[cols[1]] = v
            else:
                row[col] = v
        kw = dict(k)
        if custom:
            kw['custom_name'] = custom
        return Step(f'{name}{a}{kw or ""}', False, lambda b: getattr(b, name)(*a, **dict(kw)), apply, cols)


def custom_step(rng, key, log, delay=None):
    """Custom operations and parameters; `delay(surface)` is called inside (timing faults)."""
    r = rng.integers(5)
    f = float(rng.uniform(.5, 2))
    col = f'custom {key}'

    if r == 0:
        def body(s):
            s.data = s.data * f
    elif r == 1:
        def body(s):
            z = np.array(s.data)
            z[0, 0] += f
            s.data = z
    elif r == 2:
        def body(s):
            s[1:3, 0:2] = f
    else:
        body = None
    if body is not None:
        def op(s):
            if log.active:
                log.add(key, s)
            if delay is not None and log.active:
                delay(s)
            body(s)
        st = Step(f'custom operation {r}', True, lambda b: b.custom_operation(op), lambda s, row: op(s))
        st.key = key
        return st
    cols = [col] if r == 3 else [col + ' mean', col + ' points']

    def par(s):
        if log.active:
            log.add(key, s)
        if delay is not None and log.active:
            delay(s)
        if r == 3:
            return {cols[0]: float(np.nanmedian(s.data)) * f}
        return {cols[0]: float(np.nanmean(s.data)), cols[1]: int(s.data.size)}
    st = Step(f'custom parameter {r}', False, lambda b: b.custom_parameter(par), lambda s, row: row.update(par(s)), cols)
    st.key = key
    return st


def rough_step(rng, taken, cheap=False):
    names = [n for n in ('Sa', 'Sq', 'Sp', 'Sv', 'Sz', 'Ssk', 'Sku', 'Sdr', 'Sdq', 'Sk', 'Spk', 'Svk', 'Vmc', 'Vvv') if n not in taken and (not cheap or n in CHEAP)]
    whole = not taken and not cheap and rng.random() < .25
    names = list(Surface.ISO_PARAMETERS) if whole else [str(n) for n in rng.permutation(names)[:rng.integers(1, 6)]]
    if not names:
        return None
    taken.update(names)

    def apply(s, row):
        for n in names:
            row[n] = getattr(s, n)()
    if whole:
        def apply(s, row):
            for n in names:
                try:
                    row[n] = getattr(s, n)()
                except CalculationError:
                    row[n] = np.nan
        return Step('roughness_parameters()', False, lambda b: b.roughness_parameters(), apply, names)
    parameter = getattr(surfalize.batch, '_Parameter', None)        # named in the documentation of the method
    if parameter is not None and rng.random() < .3 and 'Vmp' not in taken:
        taken.add('Vmp')
        p = float(rng.choice([2., 15., 40.]))
        def with_vmp(s, row):
            apply(s, row)
            row['Vmp'] = s.Vmp(p=p)
        return Step(f'roughness_parameters({names} Vmp({p}))', False, lambda b: b.roughness_parameters(list(names) + [parameter('Vmp', kwargs=dict(p=p))]),
                    with_vmp, names + ['Vmp'])
    return Step(f'roughness_parameters({names})', False, lambda b: b.roughness_parameters(list(names)), apply, names)


def chain(rng, log, probe, delay=None, n=None, first_custom=False, cheap=False):
    """Random steps that work on the surface `probe` (in the given order and with the operations first)."""
    taken, steps = set(), []
    cheap = cheap or rng.random() < .6
    n = n or int(rng.integers(1, 9))
    if first_custom:
        steps.append(custom_step(rng, 0, log, delay))
    while len(steps) < n:
        r = rng.random()
        before = set(taken)
        if steps and steps[-1].is_op and rng.random() < .15:
            st = steps[-1] if not hasattr(steps[-1], 'key') else op_step(rng)      # the same operation again
        elif r < .35:
            st = op_step(rng)
        elif r < .75:
            st = par_step(rng, taken, cheap)
        elif r < .85:
            st = rough_step(rng, taken, cheap)
        else:
            st = custom_step(rng, len(steps), log, delay)
        if st is None:
            continue
        ok = True
        for order in (steps + [st], [x for x in steps + [st] if x.is_op] + [x for x in steps + [st] if not x.is_op]):
            s = gen.clone(probe)
            try:
                for x in order:
                    x.apply(s, {})
                ok = ok and min(s.data.shape) >= 5
            except Exception:
                ok = False
            if not ok:
                break
        if ok:
            steps.append(st)
        else:
            taken.clear()
            taken.update(before)
            if rng.random() < .1:
                n -= 1
    return steps or [par_step(rng, taken, True)]


def reference(inp, steps, preserve=True):
    """(row, None) or (None, exception) of one file processed on its own."""
    s = inp.open()
    row = dict(file=inp.name)
    order = steps if preserve else [x for x in steps if x.is_op] + [x for x in steps if not x.is_op]
    try:
        for x in order:
            x.apply(s, row)
    except Exception as e:
        return None, e
    return row, None
