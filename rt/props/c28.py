"""C28: plots."""
import io
import os
import numpy as np
import matplotlib
import matplotlib.pyplot as plt
from unittest import mock
from surfalize import Surface, Profile
from rt import gen, ref
from rt.core import Stage

ID = 'C28'
RULE = ('Random surfaces (all shapes, unequal step sizes, holes, image layers) and profiles are plotted with random options; the '
        'monitor reads the artists of the figure back (image arrays, extents, colour limits, lines, bars, labels) and compares '
        'them with independently computed values at their physical coordinates; 3d plots are recorded with a stand-in for the '
        'renderer (there is none in the sandbox), whose mesh has to carry the heights at the positions of the samples; image layers are saved and read back pixel by pixel.')
ASSUMPTIONS = ['Positions on frequency axes are compared to half a bin (the axes are those of known finding C09 frequency-bias).',
               'The 3d renderer itself is replaced by a recorder.']
REQUIRED = {'event:plot_2d': 100, 'event:fourier': 100, 'event:acf': 60, 'event:abbott': 60, 'event:profile': 60, 'event:3d': 60,
            'event:saved': 60, 'event:picture': 60, 'event:apsd': 60}
PNG = b'\x89PNG'


def image(case, ax, what):
    case.check(len(ax.images) == 1, f'{what}: one image', n=len(ax.images))
    im = ax.images[0]
    a = im.get_array()
    a = np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a)) if np.issubdtype(np.ma.getdata(a).dtype, np.floating) else np.ma.getdata(a)
    return im, a


def axes_for(rng, polar=False):
    """(ax argument, expected figure, expected axes) - either fresh or one of several given axes."""
    if rng.random() < 0.5:
        return None, None, None
    fig, axs = plt.subplots(1, 2)
    ax = axs[int(rng.integers(2))]
    if rng.random() < 0.5:
        plt.figure(figsize=(2, 2))      # the figure of the axes is not the current one
    return ax, fig, ax


def drawn(case, what, ax, fig, got_fig, got_ax):
    if ax is not None:
        case.check(got_fig is fig and got_ax is ax, f'{what} draws on the given axes')
    else:
        case.check(got_ax in got_fig.axes, f'{what} returns the figure of its axes')


def ink(src):
    from PIL import Image
    im = Image.open(src).convert('RGB')
    return 1 - np.asarray(im.resize((72, 54), Image.BILINEAR), dtype=float) / 255


def saved(case, path, fig=None):
    """The file is a picture of the figure (up to resolution and margins)."""
    case.event('saved')
    case.check(os.path.exists(path), 'save_to writes the file')
    with open(path, 'rb') as fh:
        case.check(fh.read(4) == PNG, 'the saved file is a picture')
    if fig is not None:
        got, diff = ink(path), []
        for opts in ({'bbox_inches': 'tight'}, {}):
            buf = io.BytesIO()
            fig.savefig(buf, format='PNG', dpi=100, **opts)
            want = ink(buf)
            diff.append(np.abs(got - want).sum() / max(want.sum(), 1e-9))
        case.check(min(diff) < .35, 'the saved file shows the figure', difference=diff)


def bounds(case, what, im, want, slack=(0.0, 0.0)):
    """The array's first row is at the top and its first column to the left; corners in data coordinates."""
    l, r, b, t = im.get_extent()
    if im.origin == 'lower':
        b, t = t, b
    ax = im.axes
    # the axes themselves run left to right and bottom to top
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    case.check(x0 < x1, f'{what}: x axis runs to the right', xlim=[x0, x1])
    if want[3] > want[2]:
        case.check(y0 < y1, f'{what}: y axis runs upwards', ylim=[y0, y1])
    for n, g, w, s in zip(('left', 'right', 'bottom', 'top'), (l, r, b, t), want, (slack[0], slack[0], slack[1], slack[1])):
        case.close(f'{what}: {n} border', g, w, rtol=1e-9, atol=s + 1e-12)


def plot_2d(case):
    rng = case.rng
    s, d = gen.surface(rng, 3, 40, nan=rng.random() < .4)
    case.note(**d)
    case.event('plot_2d')
    z = np.array(s.data)
    ax, fig, eax = axes_for(rng)
    kw = {}
    if rng.random() < .4:
        kw['vmin'], kw['vmax'] = float(np.nanmin(z)) - 1.0, float(np.nanmax(z)) + 2.0
        r = rng.random()
        if r < .25:     # only one of the limits, or a limit of exactly zero
            del kw[str(rng.choice(['vmin', 'vmax']))]
        elif r < .6:
            kw = {'vmin': 0.0, 'vmax': abs(kw['vmax']) + 3} if rng.random() < .5 else {'vmin': -abs(kw['vmin']) - 3, 'vmax': 0.0}
    if rng.random() < .5:
        kw['cmap'] = str(rng.choice(['viridis', 'gray', 'jet']))
    if rng.random() < .4:
        kw['show_cbar'] = bool(rng.random() < .5)
    if rng.random() < .3:
        kw['maskcolor'] = 'red'
    save = rng.random() < .1
    if save:
        kw['save_to'] = os.path.join(case.tmp, 'p.png')
    f, a = s.plot_2d(ax=ax, **kw)
    drawn(case, 'plot_2d', ax, fig, f, a)
    im, got = image(case, a, 'plot_2d')
    case.close('plot_2d: heights', got, z, rtol=1e-12)
    bounds(case, 'plot_2d', im, (0, (z.shape[1] - 1) * s.step_x, 0, (z.shape[0] - 1) * s.step_y))
    case.close('plot_2d: colour range', im.get_clim(), (kw.get('vmin', np.nanmin(z)), kw.get('vmax', np.nanmax(z))), rtol=1e-12)
    case.check(im.get_cmap().name == kw.get('cmap', 'jet'), 'colour map')
    case.close('colour of non-measured points', im.get_cmap().get_bad(), matplotlib.colors.to_rgba(kw.get('maskcolor', 'black')))
    # colour bar: another axes that shows the same range
    bars = im.colorbar is not None
    case.check(bars == kw.get('show_cbar', True), 'colour bar shown or not', asked=kw.get('show_cbar'))
    case.check('x' in a.get_xlabel() and 'y' in a.get_ylabel() and 'µm' in a.get_xlabel() and 'µm' in a.get_ylabel(), 'axis labels')
    case.check((a.get_legend() is not None) == bool(np.isnan(z).any()), 'legend for non-measured points')
    if save:
        saved(case, kw['save_to'], f)
    case.raises('unknown layer', ValueError, lambda: s.plot_2d(layer='no such layer'))


def layers(case):
    rng = case.rng
    s, d = gen.surface(rng, 3, 30)
    rgb = rng.integers(0, 256, s.data.shape + (3,)).astype(np.uint8)
    gray = rng.integers(0, 256, s.data.shape).astype(np.uint8)
    from surfalize.image import Image
    s = Surface(s.data, s.step_x, s.step_y, image_layers={'RGB': Image(rgb.copy()), 'Intensity': Image(gray.copy())})
    case.note(**d)
    case.event('layer')
    for name, want in (('RGB', rgb), ('Intensity', gray)):
        kw = {'show_cbar': True} if name == 'Intensity' and rng.random() < .4 else {}
        f, a = s.plot_2d(layer=name, **kw)
        im, got = image(case, a, name)
        case.same(f'image layer {name}', got, want)
        bounds(case, 'image layer', im, (0, (gray.shape[1] - 1) * s.step_x, 0, (gray.shape[0] - 1) * s.step_y))
        case.check((im.colorbar is not None) == bool(kw), 'colour bar of an image layer')
    with mock.patch.object(plt, 'show') as show:
        n = len(plt.get_fignums())
        s.show()
        case.check(show.called and len(plt.get_fignums()) == n + 1, 'show draws and shows a figure')
        im, got = image(case, plt.gcf().axes[0], 'show')
        case.same('show: heights', got, s.data)
        s.show(layer='Intensity')
        im, got = image(case, plt.gcf().axes[0], 'show')
        case.same('show: layer', got, gray)


def pictures(case):
    """Image layers are saved and shown pixel by pixel."""
    from surfalize.image import Image
    from PIL import Image as Pil
    rng = case.rng
    h, w = (int(v) for v in rng.integers(1, 60, 2))
    colour = bool(rng.random() < .5)
    px = rng.integers(0, 256, (h, w, 3) if colour else (h, w))
    if rng.random() < .3:
        px[...] = rng.integers(0, 256, px.shape[-1] if colour else None)
    deep = not colour and rng.random() < .3
    px = (px * 257).astype(np.uint16) if deep else px.astype(np.uint8)
    if rng.random() < .3:
        px = np.asfortranarray(px)
    case.note(shape=px.shape, dtype=str(px.dtype))
    case.event('picture')
    im = Image(px.copy())
    kinds = ['.png', '.tif'] if deep else ['.png', '.tif', '.bmp', '.PNG']
    path = os.path.join(case.tmp, 'picture' + str(rng.choice(kinds)))
    if rng.random() < .5:
        from pathlib import Path
        path = Path(path)
    if rng.random() < .3:
        with open(path, 'wb') as fh:
            fh.write(b'something else')
    im.save(path)
    case.same('saved picture', np.asarray(Pil.open(path)).astype(int), px.astype(int))
    got = im.show()
    case.check(isinstance(got, Pil.Image), 'picture shown')
    case.same('picture shown', np.asarray(got).astype(int), px.astype(int))
    case.same('the picture itself stays', im.data, px)
    r = repr(im)
    case.check(f'{w} x {h}' in r and str(px.dtype.itemsize * 8) in r and ('RGB' if colour else 'Grayscale') in r, 'description of a picture', got=r)
    if colour:
        case.check(not Image.is_grayscale(px) or bool((px == px[..., :1]).all()), 'coloured picture')
        g = np.repeat(px[..., :1], 3, axis=2)
        case.check(bool(Image.is_grayscale(g)), 'picture without colours')
        i, j, c = int(rng.integers(h)), int(rng.integers(w)), int(rng.integers(3))
        g[i, j, c] ^= 1 << int(rng.integers(8))
        case.check(not Image.is_grayscale(g), 'picture with a single coloured pixel')


def fourier(case):
    rng = case.rng
    s, d = gen.surface(rng, 6, 40)
    case.note(**d)
    case.event('fourier')
    z = np.array(s.data)
    ny, nx = z.shape
    ax, fig, eax = axes_for(rng)
    kw = {}
    log = hann = False
    sub = True
    if rng.random() < .5:
        kw['log'] = bool(rng.random() < .5)
    if rng.random() < .5:
        kw['hanning'] = bool(rng.random() < .5)
    if rng.random() < .5:
        kw['subtract_mean'] = bool(rng.random() < .5)
    log, hann, sub = kw.get('log', True), kw.get('hanning', False), kw.get('subtract_mean', True)
    if rng.random() < .5:
        kw['adjust_colormap'] = bool(rng.random() < .5)
    bx, by = 1 / (nx * s.step_x), 1 / (ny * s.step_y)
    mx, my = (nx - 1) // 2, (ny - 1) // 2
    jx = jy = None
    if rng.random() < .5:
        jx = int(rng.integers(1, mx + 1))
        kw['fxmax'] = jx * bx * nx / (nx - 1)
    if rng.random() < .5:
        jy = int(rng.integers(1, my + 1))
        kw['fymax'] = jy * by * ny / (ny - 1)
    f, a = s.plot_fourier_transform(ax=ax, **kw)
    drawn(case, 'plot_fourier_transform', ax, fig, f, a)
    data = z - z.mean() if sub else z
    if hann:
        w = lambda n: 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1))
        data = data * w(ny)[:, None] * w(nx)[None]
    F = np.abs(np.fft.fft2(data))
    kx, ky = np.arange(nx) - nx // 2, np.arange(ny) - ny // 2
    F = F[ky][:, kx]                                   # ordered by signed integer frequency, first row lowest
    scale = F.max()
    selx = np.ones(nx, bool) if jx is None else np.abs(kx) <= jx
    sely = np.ones(ny, bool) if jy is None else np.abs(ky) <= jy
    F, kx, ky = F[sely][:, selx], kx[selx], ky[sely]
    im, got = image(case, a, 'fourier')
    case.check(got.shape == F.shape, 'frequencies shown', got=got.shape, want=F.shape, options=kw)
    case.close('fourier: magnitudes', 10 ** got if log else got, F + (1e-10 if log else 0), rtol=1e-9, atol=1e-9 * scale + 1e-10, options=kw)
    # row 0 holds the lowest (negative) frequency and is drawn at the coordinate of that frequency
    bounds(case, 'fourier', im, (kx[0] * bx, kx[-1] * bx, ky[-1] * by, ky[0] * by), slack=(bx, by))
    if kw.get('adjust_colormap', True) and got.mean() < 0.7 * got.max():
        case.close('colour range', im.get_clim(), (got.mean(), 0.7 * got.max()), rtol=1e-9)
    else:
        case.close('colour range', im.get_clim(), (got.min(), got.max()), rtol=1e-9)
    if rng.random() < .1:
        p = os.path.join(case.tmp, 'f.png')
        if rng.random() < .5:
            s = Surface(z * 1e-6, s.step_x, s.step_y)
        ax, fig, eax = axes_for(rng)
        f, a = s.plot_fourier_transform(ax=ax, save_to=p)
        saved(case, p, f)


def acf(case):
    rng = case.rng
    s, d = gen.surface(rng, 4, 16)
    case.note(**d)
    case.event('acf')
    z = np.array(s.data)
    ny, nx = z.shape
    ax, fig, eax = axes_for(rng)
    kw = {}
    if rng.random() < .4:
        kw['show_cbar'] = bool(rng.random() < .5)
    if rng.random() < .1:
        kw['save_to'] = os.path.join(case.tmp, 'a.png')
    f, a = s.plot_autocorrelation(ax=ax, **kw)
    drawn(case, 'plot_autocorrelation', ax, fig, f, a)
    im, got = image(case, a, 'acf')
    case.same('acf: data of the autocorrelation function', got, s.get_autocorrelation_function().data)
    h, w = got.shape
    # zero lag (the peak) lies in the middle of the axes
    l, r, b, t = im.get_extent()
    case.close('zero lag is centred', [l + r, b + t], [0, 0], atol=1e-9 * (r + t))
    cy, cx = np.unravel_index(np.argmax(got), got.shape)
    if np.sum(got >= got.max() * (1 - 1e-9)) == 1 and got.max() > 0:
        case.close('position of the central peak', [l + (cx + .5) * (r - l) / w, t - (cy + .5) * (t - b) / h], [0, 0],
                   atol=0.51 * max((r - l) / w, (t - b) / h) + 1e-9)
    case.close('largest lags', [r, t], [w / 2 * s.step_x, h / 2 * s.step_y], rtol=0, atol=0.51 * max(s.step_x, s.step_y))
    case.within('largest lag x', r, w / 2 * s.step_x - 0.51 * s.step_x, w / 2 * s.step_x + 0.51 * s.step_x)
    case.within('largest lag y', t, h / 2 * s.step_y - 0.51 * s.step_y, h / 2 * s.step_y + 0.51 * s.step_y)
    case.check((im.colorbar is not None) == kw.get('show_cbar', True), 'colour bar')
    if 'save_to' in kw:
        saved(case, kw['save_to'], f)
    z = np.array(s.data, dtype=float)
    z[0, 0] = np.nan
    n = Surface(z, s.step_x, s.step_y)
    case.raises('autocorrelation plot of a surface with non-measured points', ValueError, lambda: n.plot_autocorrelation())


def abbott(case):
    rng = case.rng
    if rng.random() < .5:
        s, d = gen.surface(rng, 4, 30)
    else:
        s, d = gen.profile(rng, 10, 100)
    case.note(**d)
    z = np.array(s.data)
    if np.ptp(z) < 1e-9 * np.abs(z).max() or np.ptp(z) == 0:
        return
    case.event('abbott')
    A = ref.Abbott(z)
    kw = {}
    if rng.random() < .5:
        kw['nbars'] = int(rng.integers(3, 40))
    save = rng.random() < .08
    if save:
        kw['save_to'] = os.path.join(case.tmp, 'k.png')
    f, (a, a2) = s.plot_abbott_curve(**kw)
    if save:
        saved(case, kw['save_to'], f)
    nb = kw.get('nbars', 20)
    case.check(len(a2.lines) == 1, 'one curve')
    x, y = a2.lines[0].get_data()
    case.close('curve: heights', np.interp(A.mr, x, y), A.h, rtol=0, atol=1e-6 * A.range + A.eps)
    case.check(np.all(np.diff(x) >= 0) and x[0] == 0 and x[-1] == 100, 'curve spans 0 to 100 %')
    case.close('height axis', a.get_ylim(), (z.min(), z.max()), rtol=1e-12)
    bars = [p for p in a.patches]
    case.check(len(bars) == nb, 'number of bars', got=len(bars))
    edges = np.linspace(z.min(), z.max(), nb + 1)
    tot = 0.0
    flat = z.ravel()
    e = 1e-9 * np.ptp(z) + 1e-12 * np.abs(z).max()
    for b in bars:
        lo, hi = b.get_y(), b.get_y() + b.get_height()
        case.close('bar lies on the classes', min(np.min(np.abs(edges - lo)), np.min(np.abs(edges - hi))), 0, atol=1e-6 * np.ptp(z) + e)
        share = b.get_width()
        inner = np.sum((flat > lo + e) & (flat < hi - e)) * 100 / flat.size
        outer = np.sum((flat >= lo - e) & (flat <= hi + e)) * 100 / flat.size
        case.within('share of the heights in a bar', share, inner, outer, slack=1e-9, bar=[lo, hi])
        tot += share
    case.close('bars add up', tot, 100, rtol=1e-9)
    # parameter study
    kw = {'save_to': os.path.join(case.tmp, 's.png')} if rng.random() < .08 else {}
    f, a = s.plot_functional_parameter_study(**kw)
    if kw:
        saved(case, kw['save_to'], f)
    c = s.get_abbott_firestone_curve()
    upper, lower = z.max() - c.pkx(), z.min() + c.vkx()
    hs = sorted(l.get_ydata()[0] for l in a.lines if len(l.get_ydata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1])
    for want in (upper, lower, upper + c.pk(), lower - c.vk()):
        case.check(any(abs(h - want) <= 1e-6 * A.range + A.eps for h in hs), 'line at a functional height', want=want, got=hs)
    curves = [l for l in a.lines if len(l.get_xdata()) > 100]
    case.check(len(curves) == 1, 'curve in the parameter study')
    x, y = curves[0].get_data()
    case.close('parameter study: heights', np.interp(A.mr, x, y), A.h, rtol=0, atol=1e-6 * A.range + A.eps)
    straight = [l for l in a.lines if 2 < len(l.get_xdata()) <= 100]
    case.check(len(straight) == 1, 'equivalence line')
    x, y = straight[0].get_data()
    case.close('equivalence line', [np.interp(0, x, y), np.interp(100, x, y)], [upper, lower], rtol=0, atol=1e-6 * A.range + A.eps)
    tri = [p.get_xy() for p in a.patches]
    area = sorted(abs(np.sum(t[:-1, 0] * t[1:, 1] - t[1:, 0] * t[:-1, 1])) / 2 for t in [np.vstack([q, q[:1]]) for q in tri])
    case.close('areas of the triangles', area, sorted([c.ak1(), c.ak2()]), rtol=1e-6, atol=1e-6 * A.range + 100 * A.eps)


def profile(case):
    rng = case.rng
    p, d = gen.profile(rng, 5, 150, nan=rng.random() < .3)
    case.note(**d)
    case.event('profile')
    ax, fig, eax = axes_for(rng)
    f, a = p.plot_2d(ax=ax)
    drawn(case, 'plot_2d of a profile', ax, fig, f, a)
    case.check(len(a.lines) == 1, 'one line')
    x, y = a.lines[0].get_data()
    case.same('profile: heights', y, p.data)
    case.close('profile: positions', x, np.arange(p.size) * p.step, rtol=1e-9)
    case.close('profile: axis', a.get_xlim(), (0, (p.size - 1) * p.step), rtol=1e-9)
    with mock.patch.object(plt, 'show') as show:
        p.show()
        case.check(show.called, 'show')
        case.same('show: heights', plt.gcf().axes[0].lines[0].get_ydata(), p.data)


def apsd(case):
    rng = case.rng
    s, d = gen.surface(rng, 6, 30)
    case.note(**d)
    case.event('apsd')
    st = float(rng.choice([1, 2, 5, .5, .25, 7]))
    kw = {} if st == 1 and rng.random() < .5 else {'angle_step': st}
    if rng.random() < .5:
        f, a = s.plot_angular_power_spectrum(**kw)
    else:
        fig, axs = plt.subplots(1, 2)
        k = int(rng.integers(2))
        pos = axs[k].get_subplotspec().get_geometry()[2]
        f, a = s.plot_angular_power_spectrum(ax=axs[k], **kw)
        case.check(f is fig and a.get_subplotspec().get_geometry()[2] == pos and axs[1 - k] in fig.axes and len(fig.axes) == 2,
                   'the polar axes takes the place of the given axes')
    case.check(a.name == 'polar', 'polar axes')
    ang, sp = s.get_fourier_transform().angular_power_spectrum(angle_step=st)
    case.check(len(a.lines) == 1, 'one line')
    x, y = a.lines[0].get_data()
    case.close('angles', x, np.deg2rad(ang), rtol=1e-9)
    case.close('spectrum', y, sp, rtol=1e-9)
    case.check(a.get_theta_direction() == 1 and abs(a.get_theta_offset()) < 1e-9, 'angles counterclockwise from the right')


class Recorder:
    last = None

    def __init__(self, *a, **k):
        self.meshes, self.scale = [], None
        Recorder.last = self

    def add_mesh(self, mesh, **k):
        self.meshes.append((mesh, k))

    def set_scale(self, *a, **k):
        self.scale = k.get('zscale', a[2] if len(a) > 2 else None)

    def screenshot(self, buffer, *a, **k):
        from PIL import Image
        im = Image.new('RGB', (192, 108), (255, 255, 255))
        im.putpixel((50, 50), (0, 0, 0))
        im.putpixel((120, 60), (0, 0, 0))
        im.save(buffer, format='PNG')

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None


def plot_3d(case):
    import pyvista as pv
    from PIL import Image
    rng = case.rng
    s, d = gen.surface(rng, 4, 30)
    case.note(**d)
    case.event('3d')
    z = np.array(s.data)
    kw = {'colorbar': bool(rng.random() < .1)}
    if rng.random() < .5:
        kw['scale'] = float(rng.choice([1, 2, 5]))
    lod = float(rng.choice([100, 100, 50]))
    if lod != 100:
        kw['level_of_detail'] = lod
    save = os.path.join(case.tmp, '3.png') if rng.random() < .5 else None
    with mock.patch.object(pv, 'Plotter', Recorder), mock.patch.object(pv, 'Light', lambda *a, **k: None):
        im = s.plot_3d(save_to=save, **kw)
    case.check(isinstance(im, Image.Image), 'type of the picture')
    rec = Recorder.last
    case.check(len(rec.meshes) == 1, 'one mesh')
    mesh, opts = rec.meshes[0]
    pts = np.asarray(mesh.points)
    w, h = (z.shape[1] - 1) * s.step_x, (z.shape[0] - 1) * s.step_y
    if lod == 100:
        case.check(len(pts) == z.size, 'number of points')
        want = {}
        iy, ix = np.mgrid[:z.shape[0], :z.shape[1]]
        j = np.rint(pts[:, 0] / s.step_x).astype(int)
        i = z.shape[0] - 1 - np.rint(pts[:, 1] / s.step_y).astype(int)     # first row at the far end
        case.check(len(set(zip(i.tolist(), j.tolist()))) == z.size and i.min() == 0 and j.min() == 0, 'positions of the points')
        case.close('x of the points', pts[:, 0], j * s.step_x, rtol=1e-5)
        case.close('y of the points', pts[:, 1], (z.shape[0] - 1 - i) * s.step_y, rtol=1e-5)
        case.close('heights of the points', pts[:, 2], z[i, j], rtol=1e-5)
        case.close('colours of the points', np.asarray(mesh.point_data['height'], float), z[i, j], rtol=1e-5)
        case.check(opts.get('scalars') == 'height', 'coloured by height')
    else:
        case.check(len(pts) <= z.size * 0.5 + 2 * sum(z.shape), 'fewer points')
        # rounding of the number of points changes the extent by up to one and a half coarse steps
        case.within('x extent', pts[:, 0].max(), w - 4 * s.step_x, w + 4 * s.step_x)
        case.within('y extent', pts[:, 1].max(), h - 4 * s.step_y, h + 4 * s.step_y)
    case.close('vertical scale', rec.scale, kw.get('scale', 1), rtol=1e-9)
    if save:
        saved(case, save)
    with mock.patch.object(pv, 'Plotter', Recorder), mock.patch.object(pv, 'Light', lambda *a, **k: None):
        case.raises('saving an interactive plot', ValueError, lambda: s.plot_3d(interactive=True, save_to='x.png'))
    if rng.random() < .2 and z.shape[0] > 8 and z.shape[1] > 30:
        # marking the evaluated sections does not change the depth
        y, x = np.mgrid[:z.shape[0], :z.shape[1]]
        g = Surface(np.sin(x * 2 * np.pi / 10) + 0 * y, s.step_x, s.step_x)
        n = len(plt.get_fignums())
        dep = g.depth(nprofiles=4, plot=[0, 2])
        case.check(len(plt.get_fignums()) > n, 'depth with plots')
        case.close('depth with plots', dep, Surface(g.data, s.step_x, s.step_x).depth(nprofiles=4), rtol=1e-9)


STAGES = [Stage('plot_2d', plot_2d, 160, 2500), Stage('layers', layers, 60, 1000), Stage('pictures', pictures, 100, 2000), Stage('fourier', fourier, 200, 3000),
          Stage('acf', acf, 100, 1500), Stage('abbott', abbott, 100, 1500), Stage('profile', profile, 100, 1500),
          Stage('apsd', apsd, 100, 1200), Stage('plot_3d', plot_3d, 100, 1500)]
