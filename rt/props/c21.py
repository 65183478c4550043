"""C21: command line."""
import io
import os
import re
import subprocess
import sys
import warnings
import zlib
from pathlib import Path
from unittest import mock
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from click.testing import CliRunner
from PIL import Image as PILImage
from surfalize import Surface
import surfalize.cli as cli_module
import surfalize.plotting as plotting
import surfalize.surface as surface_module
from rt import encode, formats as fm, gen
from rt.core import Stage

ID = 'C21'
RULE = ('The commands are run on files of every readable format and on folders with random options; the files they write are loaded '
        'and compared with what the library gives for the same input and options, the PDF reports are decompressed and their '
        'tables read, the surfaces handed to the plots are recorded, and all files in the folders are compared before and after.')
ASSUMPTIONS = ['Folders hold one input per stem and suffixes in lower case. The 3D renderer is replaced by a stub.']
REQUIRED = {'event:file': 150, 'event:folder': 60, 'event:report': 15, 'event:show': 60, 'event:refused': 40, 'event:layers': 30,
            'event:skipped layers': 30, 'event:compressed': 30, 'event:processed': 40}
WRITE = ('.sur', '.sdf', '.al3d', '.tmd', '.sflz')


def invoke(args):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return CliRunner().invoke(cli_module.cli, [str(a) for a in args])


def snapshot(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), 'rb').read() for r, _, fs in os.walk(d) for f in fs}


def sample(rng, k=None, min_side=1):
    names = list(encode.ENCODERS)
    name = names[(int(rng.integers(len(names))) if k is None else k) % len(names)]
    while True:
        e = encode.ENCODERS[name](rng)
        if e.z.size < 2000 and min(e.z.shape) >= min_side and np.isfinite(e.z).sum() > 1:
            return name, e


def layers_of(s):
    return {k: np.asarray(v.data) for k, v in s.image_layers.items()}


def compare(case, what, out, src, fmt, skip, **ctx):
    """The written file holds the surface of the source."""
    o = dict(binary=True) if fmt == '.sdf' else {}
    want = fm.load(src, read_image_layers=not skip)
    atol, rstep = fm.accuracy(fmt, o, want.data)
    got = fm.load(out, read_image_layers=True)
    fm.same_surface(case, what, got, np.asarray(want.data, float), want.step_x, want.step_y, atol, max(rstep, 1e-15), **ctx)
    # image layers: as the library stores them
    b = io.BytesIO()
    fm.save(want, b, fmt, {}) if fmt != '.sur' else want.save(b, format='.sur')
    ref = layers_of(fm.load(b, format=fmt, read_image_layers=True))
    lay = layers_of(got)
    case.check(list(lay) == list(ref), f'{what}: image layers', got=list(lay), want=list(ref), skip=skip, **ctx)
    for k in ref:
        case.same(f'{what}: image layer {k}', lay[k], ref[k], **ctx)
    if layers_of(fm.load(src, read_image_layers=True)):
        case.event('skipped layers' if skip else 'layers')


def storable(fmt, s):
    d = np.asarray(s.data, float)
    return min(d.shape) >= 1 and np.isfinite(d).any()


def convert_file(case):
    rng = case.rng
    name, e = sample(rng, case.idx)
    d = os.path.join(case.tmp, 'in')
    os.makedirs(d)
    src = os.path.join(d, str(rng.choice(['a', 'b c', 'x.y', 'µ'])) + e.suffix)
    with open(src, 'wb') as fh:
        fh.write(e.data)
    fmt = str(rng.choice(WRITE))
    out = os.path.join(case.tmp, str(rng.choice(['out', 'o.p', 'Ä'])) + (fmt.upper() if rng.random() < .15 else fmt))
    args = ['convert', src, out]
    skip = bool(rng.random() < .4)
    if skip:
        args.append('--skip-image-layers')
    if rng.random() < .3:
        args += [str(rng.choice(['-f', '--format'])), fmt]
    comp = fmt == '.sur' and bool(rng.random() < .6)
    if comp:
        args.append('--compressed')
    case.note(name=name, fmt=fmt, args=args[3:], shape=list(e.z.shape), what=e.what)
    case.event('file')
    before = snapshot(d)
    r = invoke(args)
    case.check(r.exit_code == 0 and r.exception is None, 'conversion of a file', args=args, output=r.output, error=repr(r.exception))
    case.check(snapshot(d) == before, 'the input is left alone')
    case.check(os.path.isfile(out), 'the output is written', out=out, output=r.output)
    compare(case, f'{name} converted to {fmt}', out, src, fmt, skip, args=args[3:])
    if fmt == '.sur':
        magic = open(out, 'rb').read(12)
        case.check(magic == (b'DSCOMPRESSED' if comp else b'DIGITAL SURF'), 'compression as asked for', got=magic, compressed=comp)
        if comp:
            case.event('compressed')
    case.check(sorted(os.listdir(case.tmp)) == sorted(['in', os.path.basename(out)]), 'nothing else is written', got=os.listdir(case.tmp))
    case.check(os.path.basename(out) in r.output, 'output names the file', output=r.output)


def convert_folder(case):
    rng = case.rng
    d = os.path.join(case.tmp, 'in')
    os.makedirs(os.path.join(d, 'sub'))
    n = int(rng.integers(0, 6))
    srcs = {}
    for i in range(n):
        name, e = sample(rng)
        stem = f'{rng.choice(["m", "x.y", "a b", "µ", "Probe", "ÄB"])}{i}'
        srcs[stem] = os.path.join(d, stem + e.suffix)
        with open(srcs[stem], 'wb') as fh:
            fh.write(e.data)
    for q in ('notes.txt', 'sub/inner.sur', 'README', 'x.pdf'):
        with open(os.path.join(d, q), 'wb') as fh:
            fh.write(b'unrelated')
    os.makedirs(os.path.join(d, 'folder.sur'))
    fmt = str(rng.choice(WRITE))
    out = os.path.join(case.tmp, *(['out'] if rng.random() < .6 else ['deep', 'er', 'out.d']))
    keep = {}
    if rng.random() < .3:
        os.makedirs(out)
        keep = {'old.txt': b'old'}
        with open(os.path.join(out, 'old.txt'), 'wb') as fh:
            fh.write(b'old')
    args = ['convert', d, out]
    if fmt != '.sur' or rng.random() < .5:
        args += [str(rng.choice(['-f', '--format'])), fmt]
    skip = bool(rng.random() < .4)
    if skip:
        args.append('--skip-image-layers')
    comp = fmt == '.sur' and bool(rng.random() < .5)
    if comp:
        args.append('--compressed')
    case.note(n=n, fmt=fmt, args=args[3:], files=[os.path.basename(s) for s in srcs.values()])
    case.event('folder')
    before = snapshot(d)
    r = invoke(args)
    case.check(r.exit_code == 0 and r.exception is None, 'conversion of a folder', args=args, output=r.output, error=repr(r.exception))
    case.check(snapshot(d) == before, 'the inputs are left alone')
    got = sorted(os.listdir(out))
    want = sorted([k + fmt for k in srcs] + list(keep))
    case.check(got == want, 'files written', got=got, want=want, args=args[3:])
    for k, src in srcs.items():
        p = os.path.join(out, k + fmt)
        compare(case, f'{os.path.basename(src)} converted to {fmt}', p, src, fmt, skip, args=args[3:])
        if fmt == '.sur':
            case.check(open(p, 'rb').read(12) == (b'DSCOMPRESSED' if comp else b'DIGITAL SURF'), 'compression as asked for')
            if comp:
                case.event('compressed')
        case.check(os.path.basename(p) in r.output, 'output names the file', output=r.output)


def refused(case):
    """Conversions that cannot be done leave everything as it was."""
    rng = case.rng
    d = os.path.join(case.tmp, 'in')
    os.makedirs(d)
    name, e = sample(rng)
    src = os.path.join(d, 'a' + e.suffix)
    with open(src, 'wb') as fh:
        fh.write(e.data)
    bad = os.path.join(d, 'bad.sdf')
    with open(bad, 'wb') as fh:
        fh.write(b'bISO-1.0 damaged')
    kind = case.idx % 6
    out = os.path.join(case.tmp, 'out')
    if kind == 0:
        args = ['convert', src, out + str(rng.choice(['.plu', '.vk4', '.txt', '.xyz']))]
    elif kind == 1:
        args = ['convert', src, out + str(rng.choice(WRITE[1:])), '--compressed']
    elif kind == 2:
        args = ['convert', os.path.join(d, 'missing.sur'), out + '.sur']
    elif kind == 3:
        args = ['convert', bad, out + '.sur']
    elif kind == 4:
        args = ['convert', d, out, '-f', str(rng.choice(['.vk4', '.foo', '.plux', 'sdf']))]
    else:
        args = [str(rng.choice(['show', 'report'])), src] + [['-z', '-c'], ['-hp', '1', '-lp', '2'], ['-lp', '1', '-bp', '1', '2'], ['-hp', 'x'],
                                                              ['--nonsense'], ['-bp', '1'], ['-bp', '6', '2'], ['-bp', '2', '2']][rng.integers(8)]
    case.note(kind=int(kind), args=args[2:], name=name)
    case.event('refused')
    before = snapshot(case.tmp)
    r = invoke(args)
    case.check(snapshot(case.tmp) == before, 'a refused command writes nothing', args=args, got=sorted(snapshot(case.tmp)), want=sorted(before))
    if kind in (1, 2, 3, 5):
        case.check(r.exit_code != 0, 'a refused command fails', args=args, output=r.output)
    else:
        case.check(r.exit_code != 0 or 'not supported' in r.output, 'a refused command says so', args=args, output=r.output)


# -- processing ----------------------------------------------------------------------------------------------------------
def options(rng):
    """Options of the command line and the calls they stand for."""
    args, ops = [], []
    f = lambda *a: args.extend(str(x) for x in a)
    if rng.random() < .5:
        f(*[['-fn'], ['--fill-nonmeasured']][rng.integers(2)])
        ops.append(lambda s: s.fill_nonmeasured(inplace=True))
    if rng.random() < .5:
        f(['-l', '--level'][rng.integers(2)])
        ops.append(lambda s: s.level(inplace=True))
    r = rng.random()
    if r < .25:
        f(['-c', '--center'][rng.integers(2)])
        ops.append(lambda s: s.center(inplace=True))
    elif r < .5:
        f(['-z', '--zero'][rng.integers(2)])
        ops.append(lambda s: s.zero(inplace=True))
    if rng.random() < .25:
        a, b = float(rng.integers(1, 10)), float(rng.integers(1, 10)) / 2
        f(['-t', '--threshold'][rng.integers(2)], a, b)
        ops += [lambda s: s.threshold((a, b), inplace=True), lambda s: s.fill_nonmeasured(inplace=True)]
    if rng.random() < .25:
        n = int(rng.integers(2, 4))
        f(['-ro', '--remove-outliers'][rng.integers(2)], n)
        ops += [lambda s: s.remove_outliers(n=n, inplace=True), lambda s: s.fill_nonmeasured(inplace=True)]
    r = rng.random()
    c = round(float(rng.uniform(2, 5)), 2)
    if r < .2:
        f(['-hp', '--highpass'][rng.integers(2)], c)
        ops.append(lambda s: s.filter('highpass', c, inplace=True))
    elif r < .4:
        f(['-lp', '--lowpass'][rng.integers(2)], c)
        ops.append(lambda s: s.filter('lowpass', c, inplace=True))
    elif r < .55:
        f(['-bp', '--bandpass'][rng.integers(2)], c, c + 3)
        ops.append(lambda s: s.filter('bandpass', c, c + 3, inplace=True))
    return args, ops


def texture(rng, nan):
    ny, nx = int(rng.integers(32, 48)), int(rng.integers(32, 48))
    z = gen.grating(rng, ny, nx, 0 if rng.random() < .5 else float(rng.uniform(0, 60)), 8.0, 1.0, amp=float(rng.uniform(1, 4)), noise=.03) + float(rng.uniform(-2, 3))
    z += np.linspace(0, float(rng.uniform(0, 2)), nx)
    if nan:
        z[gen.nan_mask(rng, ny, nx)] = np.nan
        z[0, 0] = z[-1, -1] = z[0, -1] = 1.0
    return z * float(rng.choice([1, 1, 1, 0.05, 700]))


def write(rng, case, nan, stem='a'):
    z = texture(rng, nan)
    fmt = str(rng.choice(['.sur', '.sdf', '.sflz', '.tmd']))
    p = os.path.join(case.tmp, stem + fmt)
    fm.save(Surface(z, 1.0, 1.0), p, fmt, {})
    return p


def processed(p, ops):
    s = fm.load(p)
    for o in ops:
        o(s)
    return s


class Recorder:
    """Replaces the plots by recorders of the surfaces they get."""

    def __enter__(self):
        self.got = []
        self.saved = []

        def put(owner, name, new):
            self.saved.append((owner, name, getattr(owner, name)))
            setattr(owner, name, new)
        rec = lambda kind: (lambda s, *a, **k: (self.got.append((kind, np.array(s.data), s.step_x, s.step_y, k)),
                                                PILImage.new('RGB', (40, 30), (200, 10, 10)))[1])
        for m in (plotting, surface_module, cli_module):
            if hasattr(m, 'plot_3d') and not hasattr(getattr(m, 'plot_3d'), 'callback'):
                put(m, 'plot_3d', rec('3d'))
        put(Surface, 'plot_3d', rec('3d'))
        orig = Surface.plot_2d
        def plot_2d(s, *a, **k):
            self.got.append(('2d', np.array(s.data), s.step_x, s.step_y, k))
            return orig(s, *a, **k)
        put(Surface, 'plot_2d', plot_2d)
        put(matplotlib, 'get_backend', lambda *a, **k: 'QtAgg')
        put(plt, 'show', lambda *a, **k: self.got.append(('show', None, 0, 0, k)))
        return self

    def __exit__(self, *a):
        for owner, name, old in reversed(self.saved):
            setattr(owner, name, old)
        plt.close('all')


def show(case):
    rng = case.rng
    nan = bool(rng.random() < .4)
    p = write(rng, case, nan)
    args, ops = options(rng)
    three = bool(rng.random() < .5)
    case.note(args=args, nan=nan, three=three, z0=float(np.nan_to_num(fm.load(p).data[1, 1])))
    try:
        want, werr = processed(p, ops), None
    except Exception as e:
        want, werr = None, e
    before = snapshot(case.tmp)
    with Recorder() as rec:
        r = invoke(['show', p] + args + (['--plot-3d'] if three else []))
    case.check(snapshot(case.tmp) == before, 'show writes nothing')
    if werr is not None:
        case.check(r.exit_code != 0, 'options that cannot be applied', output=r.output, want=repr(werr))
        return
    case.event('show')
    case.check(r.exit_code == 0 and r.exception is None, 'show', output=r.output, error=repr(r.exception), args=args)
    plots = [g for g in rec.got if g[0] == ('3d' if three else '2d')]
    case.check(len(plots) == 1, 'the surface is plotted once', got=[g[0] for g in rec.got])
    case.check(not [g for g in rec.got if g[0] == ('2d' if three else '3d')], 'the other plot is not shown', got=[g[0] for g in rec.got])
    if not three:
        case.check(any(g[0] == 'show' for g in rec.got), 'the plot is shown')
    _, z, sx, sy, kw = plots[0]
    case.close('heights shown', z, want.data, rtol=1e-12, args=args)
    case.check((sx, sy) == (want.step_x, want.step_y), 'steps shown', got=(sx, sy))
    if ops:
        case.event('processed')


TEXT = re.compile(rb'\((?:\\.|[^\\()])*\)\s*Tj')


def pdf_text(data):
    """Strings shown by a PDF, in order."""
    out = []
    for m in re.finditer(rb'stream\r?\n(.*?)endstream', data, re.S):
        try:
            c = zlib.decompressobj().decompress(m.group(1))
        except zlib.error:
            c = m.group(1)
        for t in TEXT.finditer(c):
            t = t.group()[1:t.group().rindex(b')')]
            t = re.sub(rb'\\([0-7]{3})', lambda k: bytes([int(k.group(1), 8)]), t)
            t = re.sub(rb'\\(.)', rb'\1', t, flags=re.S)
            out.append(t.decode('latin-1'))
    return out


UNITS = {**{k: 'µm' for k in ('Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk', 'Period', 'Depth')}, 'Aspect ratio': '', 'Homogeneity': ''}


def report(case):
    rng = case.rng
    args, ops = options(rng)
    folder = bool(rng.random() < .3)
    n = int(rng.integers(1, 3)) if folder else 1
    paths = [write(rng, case, False, f'a{i} b') for i in range(n)]
    if folder:
        with open(os.path.join(case.tmp, 'x.txt'), 'w') as fh:
            fh.write('x')
    periodic = bool(rng.random() < .5)
    case.note(args=args, folder=folder, n=n, periodic=periodic, z0=float(fm.load(paths[0]).data[1, 1]))
    before = snapshot(case.tmp)
    want, werr = {}, None
    for p in paths:
        try:
            s = processed(p, ops)
            w = {k: getattr(s, k)() for k in ('Sa', 'Sq', 'Sv', 'Sp', 'Sz', 'Sk', 'Spk', 'Svk')}
            s.roughness_parameters()
            if periodic:
                w.update({'Period': s.period(), 'Depth': s.depth()[0], 'Aspect ratio': s.aspect_ratio(), 'Homogeneity': s.homogeneity()})
            want[p] = w
            s3 = s
        except Exception as e:
            werr = e
    viewed = []
    view = bool(rng.random() < .3)
    if view:
        args = args + ['--open-after']

    def run_stub(cmd, *a, **k):
        viewed.append(([str(c) for c in cmd] if isinstance(cmd, (list, tuple)) else str(cmd).split(' '), snapshot(case.tmp)))
    with Recorder() as rec, mock.patch.object(subprocess, 'run', run_stub), mock.patch.object(subprocess, 'Popen', run_stub):
        r = invoke(['report', case.tmp if folder else paths[0]] + args + ([str(rng.choice(['-pp', '--periodic-parameters']))] if periodic else []))
    if werr is not None:
        case.count('not computable')
        case.check(r.exit_code != 0, 'report that cannot be computed', output=r.output, want=repr(werr))
        return
    case.event('report')
    if ops:
        case.event('processed')
    case.check(r.exit_code == 0 and r.exception is None, 'report', output=r.output, error=repr(r.exception), args=args)
    after = snapshot(case.tmp)
    names = sorted(set(after) - set(before))
    case.check(names == sorted(os.path.basename(p) + '.pdf' for p in want), 'reports written', got=names)
    case.check({k: after[k] for k in before} == before, 'the inputs are left alone')
    case.check(len(viewed) == (len(want) if view else 0), 'reports are opened when asked for only', got=viewed and viewed[0][0], want=view)
    if view:
        case.event('viewed')
        shown = sorted(os.path.basename(c[-1]) for c, _ in viewed)
        case.check(shown == names, 'reports opened', got=shown, want=names)
        for c, files in viewed:
            case.check(files.get(os.path.basename(c[-1])) == after[os.path.basename(c[-1])], 'the opened report is complete')
    for p, w in want.items():
        text = pdf_text(after[os.path.basename(p) + '.pdf'])
        case.check(any(os.path.basename(p) in t for t in text), 'the report names its file', got=text[:5])
        for k, v in w.items():
            # narrow cells break labels into lines
            at = [(i, n) for i in range(len(text)) for n in (1, 2, 3) if ''.join(text[i:i + n]).replace(' ', '') == k.replace(' ', '')]
            case.check(len(at) == 1, f'{k} is listed once', got=text)
            after_label = at[0][0] + at[0][1]
            shown = text[after_label]
            try:
                num = float(shown)
            except ValueError:
                case.fail(f'value of {k} in the report', got=shown, want=v)
            case.within(f'value of {k} in the report', num, v - .00051, v + .00051, slack=1e-9 * abs(v), args=args)
            if UNITS[k]:
                case.check(text[after_label + 1] == UNITS[k], f'unit of {k}', got=text[after_label - 1:after_label + 2])
        if not periodic:
            case.check('Period' not in text, 'periodic parameters only when asked for')
    two = [g for g in rec.got if g[0] == '2d']
    three = [g for g in rec.got if g[0] == '3d']
    case.check(len(two) == len(three) == len(want), 'plots in the report', got=[g[0] for g in rec.got])
    for g in two + three:
        case.check(any(g[1].shape == processed(p, ops).data.shape and np.allclose(g[1], processed(p, ops).data, rtol=1e-12, atol=1e-12) for p in want),
                   'heights shown in the report', kind=g[0])


STAGES = [Stage('convert_file', convert_file, 400, 6000), Stage('convert_folder', convert_folder, 120, 2000), Stage('refused', refused, 180, 1500),
          Stage('show', show, 150, 2000), Stage('report', report, 40, 500, timeout=120)]
