"""C25: depth, aspect ratio and homogeneity of periodic textures."""
import math
import numpy as np
from surfalize import Surface
from rt import gen
from rt.core import Stage

ID = 'C25'
RULE = ('Sinusoidal and rectangular gratings (all directions, periods, shapes, unequal step sizes, amplitude constant or '
        'changing along the grooves, noise, outliers, numbers of profiles up to the limit): depth and its spread against '
        'the true extrema of the texture; tiled unit cells with random amplitudes and rims: homogeneity against the Gini '
        'coefficients of independently computed cell parameters.')
ASSUMPTIONS = ['Gratings with at least 24 points and 4 periods along the sampled axis (rectangular grooves: a nearly whole number of '
               'periods), directions at least 20 degrees away from the diagonals.',
               'Rectangular grooves have a width of half a period; outliers on up to 3 % of the points.']
REQUIRED = {'event:sine': 200, 'event:rect': 100, 'event:ramp': 60, 'event:cells': 200, 'event:limit': 200}


def window_bounds(p_px, width):
    """Smallest and largest median of |cos| in the sampling window, relative to the amplitude (all sub-sample positions)."""
    lo, hi = 1.0, 0.0
    for half in {int(p_px * width / 2), int(p_px * width / 2 + 0.5), int(p_px * width / 2) - (int(p_px * width / 2) > 0)}:
        for off in np.linspace(-1, 1, 21):       # the position of an extremum is rounded to a data point
            m = np.median(np.cos(2 * np.pi * (np.arange(-half, half + 1) + off) / p_px))
            lo, hi = min(lo, m), max(hi, m)
    return lo, hi


def setup(rng, rect=False):
    sx, sy = gen.steps(rng, equal=bool(rng.random() < .5))
    nx = int(rng.integers(110, 260))
    ny = int(rng.integers(30, 110))
    if rng.random() < .5:
        nx, ny = ny, nx
    # the grooves are sampled along the axis the wave vector is closer to (in physical units)
    vertical = nx > ny
    n, st = (nx, sx) if vertical else (ny, sy)
    dev = float(rng.choice([0, rng.uniform(-25, 25), rng.uniform(-8, 8)]))
    if rect:
        dev = float(rng.choice([0, rng.uniform(-2, 2)]))
    k = int(rng.integers(4, n // 26 + 1)) + float(rng.uniform(-.15, .15) if rect else rng.uniform(-.5, .5))
    p_px = n / k                                 # along the sampled axis
    other = ny * sy if vertical else nx * sx
    if (math.tan(math.radians(abs(dev))) * k / (n * st) + 1.1 / other) > 0.9 * (k - 1) / (n * st):
        dev = 0.0                                # the transform could not tell the direction
    theta = dev if vertical else 90 + dev
    period = p_px * st * math.cos(math.radians(dev))
    return nx, ny, sx, sy, vertical, theta, p_px, period


def sine(case):
    rng = case.rng
    nx, ny, sx, sy, vertical, theta, p_px, period = setup(rng)
    m = ny if vertical else nx
    amp = float(10 ** rng.uniform(-2, 2))
    noise = float(rng.choice([0, 0, 0.01, 0.03]))
    off = float(rng.choice([0, 5, -100])) * amp
    z = gen.grating(rng, ny, nx, theta, period, sx, step_y=sy)
    ramp = rng.random() < .3
    y, x = np.mgrid[:ny, :nx]
    along = y if vertical else x
    slope = float(rng.uniform(-.8, 2)) if ramp else 0.0
    gain = 1 + slope * along / (m - 1)
    # a ramp changes the spectrum; it stays one dominating wave
    z = amp * (z * gain) + off
    if noise:
        z = z + amp * noise * rng.uniform(-1, 1, z.shape)
    s = Surface(z, sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy], direction=theta, points_per_period=p_px, amplitude=amp, offset=off, noise=noise, slope=slope)
    case.event('ramp' if ramp else 'sine')
    width = float(rng.choice([0.2, 0.2, 0.1, 0.3]))
    npr = int(rng.choice([30, 2, 1, m, rng.integers(1, m + 1)]))
    npr = min(npr, m)
    kw = {}
    if npr != 30 or rng.random() < .5:
        kw['nprofiles'] = npr
    if width != 0.2:
        kw['sampling_width'] = width
    mean, std = s.depth(**kw)
    lo, hi = window_bounds(p_px, width)
    # sampled profiles: equally spaced from the first one on
    grid = np.arange(npr) * int((m - 1) / max(npr - 1, 1))
    even = np.linspace(0, m - 1, npr) if npr > 1 else np.array([0.0])
    g = [np.mean(1 + slope * q / (m - 1)) for q in (grid, even)]
    # rows differ in the number of complete pairs of extrema, which count equally
    uneven = 2 * amp * np.std(1 + slope * grid / (m - 1)) * 1.5 / max(1, (nx if vertical else ny) / p_px - 2)
    case.within('mean depth', mean, 2 * amp * lo * min(g) * .985 - 2 * noise * amp - uneven,
                2 * amp * hi * max(g) * 1.015 + 2 * noise * amp + uneven,
                slack=1e-9 * abs(off), nprofiles=npr)
    sp = [np.std(1 + slope * q / (m - 1)) for q in (grid, even)]
    extra = uneven + 2 * amp * max(1, 1 + slope) * (hi - lo) + 2 * noise * amp + 0.015 * 2 * amp * max(g)
    case.within('standard deviation of the depth', std, 2 * amp * min(sp) * lo - extra, 2 * amp * max(sp) * hi + extra, slack=1e-9 * abs(off))
    # the ratio uses the defaults
    if m >= 30:
        ar = s.aspect_ratio()
        case.close('aspect ratio', ar, s.depth()[0] / s.period(), rtol=1e-9)
        if not ramp:
            # spectral resolution of the period and end-point convention
            k = (nx if vertical else ny) / p_px
            case.within('aspect ratio of the grating', ar * period / (2 * amp), lo * (1 - 1.3 / k) - 2 * noise, hi * (1 + 1.3 / k) * (1 + 2 / min(nx, ny)) + 2 * noise,
                        slack=1e-9 * abs(off) / amp + 0.35)
    case.event('limit')
    case.raises('more profiles than available', ValueError, lambda: s.depth(nprofiles=m + int(rng.integers(1, 50))))


def rect(case):
    rng = case.rng
    nx, ny, sx, sy, vertical, theta, p_px, period = setup(rng, rect=True)
    m = ny if vertical else nx
    h = float(10 ** rng.uniform(-2, 2))
    off = float(rng.choice([0, 5, -100])) * h
    z = (gen.grating(rng, ny, nx, theta, period, sx, step_y=sy) > 0) * h + off
    noise = float(rng.choice([0, 0.02]))
    z = z + noise * h * rng.uniform(-1, 1, z.shape)
    share = float(rng.choice([0, 0.01, 0.03]))
    out = rng.random(z.shape) < share
    z = np.where(out, z + rng.choice([-1, 1], z.shape) * 0.8 * h, z)
    s = Surface(z, sx, sy)
    case.note(shape=[ny, nx], step=[sx, sy], direction=theta, points_per_period=p_px, depth=h, offset=off, noise=noise, outliers=share)
    case.event('rect')
    npr = int(min(m, rng.choice([30, 10, m])))
    mean, std = s.depth(nprofiles=npr)
    # windows hold at least 5 points (p >= 30): single outliers do not reach the median
    tol = h * (2 * noise + (0.12 if share else 0.02))
    case.within('depth of rectangular grooves', mean, h - tol, h + tol, slack=1e-9 * abs(off))
    case.within('standard deviation', std, 0, h * (0.05 + 2 * noise + (0.3 if share else 0)), slack=1e-9 * abs(off))


def gini_of(x):
    x = np.asarray(x, float)
    return np.abs(x[:, None] - x[None]).sum() / (2 * x.size ** 2 * x.mean())


def cell_parameter(name, a, sx, sy):
    c = a - a.mean()
    if name == 'Sa':
        return np.abs(c).mean()
    if name == 'Sq':
        return math.sqrt((c ** 2).mean())
    if name == 'Sz':
        return c.max() - c.min()
    if name == 'Sp':
        return c.max()
    if name == 'Sv':
        return -c.min()
    if name == 'Sku':
        return (c ** 4).mean() / (c ** 2).mean() ** 2
    return None


def cells(case):
    rng = case.rng
    sx, sy = gen.steps(rng)
    px = int(rng.integers(6, 20))
    L = (px + 0.4) * sx
    py = int(L / sy)
    if not (5 <= py <= 70) or abs(L / sy - round(L / sy)) < 1e-6:
        return
    ncx, ncy = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    if rng.random() < .02:
        ncx, ncy = int(rng.integers(10, 24)), int(rng.integers(6, 20))
    scale = float(rng.choice([1, 1, 3e-3, 0.05, 1e3, 1e-6, 1e-9, 1e-12]))
    rimx, rimy = int(rng.integers(0, px)), int(rng.integers(0, py))
    cell = gen.heights(rng, py, px, 'noise')[0]
    cell = (cell - cell.mean()) / cell.std()
    identical = rng.random() < .4
    mult = np.ones((ncy, ncx)) if identical else rng.uniform(0.5, 3, (ncy, ncx))
    vary = not identical and rng.random() < .5
    z = rng.normal(size=(ncy * py + rimy, ncx * px + rimx)) * 20
    blocks = []
    for i in range(ncy):
        for j in range(ncx):
            b = cell * mult[i, j]
            if vary:
                b = np.sign(b) * np.abs(b) ** rng.uniform(0.7, 2)
            b = b + (0 if identical else rng.uniform(-1, 1))
            b = b * scale
            z[i * py:(i + 1) * py, j * px:(j + 1) * px] = b
            blocks.append(b)
    case.note(cell=[py, px], cells=[ncy, ncx], rim=[rimy, rimx], step=[sx, sy], identical=bool(identical), vary=bool(vary), scale=scale)
    case.event('cells', scale)
    s = Surface(z, sx, sy)
    if identical:
        case.within('homogeneity of identical cells', s.homogeneity(period=L), 1, 1, slack=1e-9)
        pars = list(rng.choice(['Sa', 'Sq', 'Sz', 'Sdr', 'Sdq', 'Sku'], 2, replace=False))
        case.within('homogeneity of identical cells', s.homogeneity(tuple(map(str, pars)), L), 1, 1, slack=1e-9, pars=pars)
    pars = tuple(str(v) for v in rng.choice(['Sa', 'Sq', 'Sz', 'Sp', 'Sv', 'Sku'], int(rng.integers(1, 4)), replace=False))
    want = np.mean([1 - gini_of([cell_parameter(p, b, sx, sy) for b in blocks]) for p in pars])
    got = s.homogeneity(parameters=pars, period=L)
    case.close('homogeneity', got, want, rtol=0, atol=6e-5, pars=pars)
    case.within('homogeneity', got, 0, 1)
    bad = str(rng.choice(['Ssk', 'depth', 'homogeneity', 'orientation', 'aspect_ratio', 'period']))
    case.raises('parameter not allowed', ValueError, lambda: s.homogeneity(parameters=('Sa', bad), period=L))


def default_period(case):
    rng = case.rng
    nx, ny, sx, sy, vertical, theta, p_px, period = setup(rng)
    z = gen.grating(rng, ny, nx, theta, period, sx, step_y=sy, noise=0.05)
    s = Surface(z, sx, sy)
    if int(s.period() / sx) > nx or int(s.period() / sy) > ny or min(int(s.period() / sx), int(s.period() / sy)) < 3:
        return
    case.note(shape=[ny, nx], step=[sx, sy], direction=theta, points_per_period=p_px)
    case.event('default period')
    a, b = s.homogeneity(), s.homogeneity(period=s.period())
    case.close('homogeneity with the period of the surface', a, b, rtol=1e-9)
    case.within('homogeneity', a, 0, 1)


STAGES = [Stage('sine', sine, 960, 18000), Stage('rect', rect, 480, 9000), Stage('cells', cells, 1500, 24000),
          Stage('default_period', default_period, 240, 3000)]
