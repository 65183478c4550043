"""C20: units."""
import io
import os
from fractions import Fraction
import numpy as np
from surfalize import Surface
from surfalize.file.common import get_unit_conversion
from rt import encode, formats as fm
from rt.core import Stage

ID = 'C20'
RULE = ('All pairs of spellings of the supported units in all letter cases, the unicode variants and wrong decodings of µ; random '
        'words that are no unit; chains of conversions; the same surface encoded in files of the formats that state units, in every '
        'combination of units for the axes, and compared as loaded; files stating unknown units.')
ASSUMPTIONS = ['The micro sign is U+00B5, U+03BC or part of U+339B; wrong decodings are those of U+00B5 between standard encodings.']
REQUIRED = {'event:pair': 800, 'event:misdecoded': 100, 'event:unknown': 300, 'event:fits': 60, 'event:gwy': 60, 'event:sur': 60,
            'event:unknown in file': 60}
NAMES = {0: ['m', 'meter'], -1: ['dm', 'decimeter'], -2: ['cm', 'centimeter'], -3: ['mm', 'millimeter'],
         -6: ['um', '\u00b5m', '\u03bcm', '\u339b', 'micrometer'], -9: ['nm', 'nanometer'], -12: ['pm', 'picometer']}
SPELL = [(u, e) for e, us in NAMES.items() for u in us]
ENC = ['utf_8', 'latin_1', 'cp1252', 'cp437', 'cp850', 'mac_roman', 'cp1250', 'cp1251', 'iso8859_15', 'cp866', 'koi8_r', 'utf_16_le', 'iso8859_7']


def cased(rng, u):
    if u == '\u339b':
        return u
    r = rng.random()
    if r < .4:
        return u
    if r < .6:
        return u.upper() if not any(c in u for c in '\u00b5\u03bc') else u[0] + u[1:].upper()
    out = ''.join(c.upper() if rng.random() < .5 and c not in '\u00b5\u03bc' else c for c in u)
    return out


def exact(e):
    return Fraction(10) ** e


def check_factor(case, got, e, what, **ctx):
    case.check(isinstance(got, (int, float, np.number)) and not isinstance(got, bool), f'{what}: a number', got=repr(got), **ctx)
    want = exact(e)
    err = abs(Fraction(float(got)) - want) / want
    case.check(err <= Fraction(1, 2 ** 51), f'{what}: factor', got=repr(got), want=f'1e{e}', **ctx)


def pairs(case):
    rng = case.rng
    n = len(SPELL)
    i, j = divmod(case.idx % (n * n), n)
    (a, ea), (b, eb) = SPELL[i], SPELL[j]
    if case.idx >= n * n:
        a, b = cased(rng, a), cased(rng, b)
    case.note(a=a, b=b)
    if '\u339b' in b or '\u03bc' in b:      # as a target only the usual spellings
        b = 'µm'
    case.event('pair')
    f = get_unit_conversion(a, b)
    check_factor(case, f, ea - eb, 'conversion', a=a, b=b)
    g = get_unit_conversion(b, a if '\u339b' not in a and '\u03bc' not in a else 'um')
    case.close('there and back', f * g, 1.0, rtol=0, atol=1e-15)
    c, ec = SPELL[rng.integers(n)]
    if '\u339b' in c or '\u03bc' in c:
        c = 'um'
    case.close('by way of a third unit', get_unit_conversion(a, c) * get_unit_conversion(c, b), f, rtol=1e-15)
    check_factor(case, get_unit_conversion(a, a if '\u339b' not in a and '\u03bc' not in a else 'um'), 0, 'the same unit', a=a)


def misdecoded(case):
    rng = case.rng
    e1, e2 = ENC[rng.integers(len(ENC))], ENC[rng.integers(len(ENC))]
    try:
        u = '\u00b5m'.encode(e1).decode(e2)
    except UnicodeError:
        return
    if not u.endswith('m') or u == 'm':
        return
    case.event('misdecoded', u)
    case.note(u=u, enc=[e1, e2])
    b, eb = SPELL[rng.integers(len(SPELL))]
    if '\u339b' in b or '\u03bc' in b:
        b = 'µm'
    check_factor(case, get_unit_conversion(u, b), -6 - eb, 'wrongly decoded µm', u=repr(u), b=b)


WORDS = ['', ' ', 'inch', 'in', 'ft', 'km', 'V', 'a.u.', 'm2', 'um2', 'Å', 'px', 'um/px', 's', 'deg', '%', 'fm', 'am', 'µ', 'u', 'mmm', 'mum', 'metre m',
         'mile', 'nmeter', 'hm', 'dam', 'Gm', 'nm²', 'm/s', '1', 'None', 'rad', 'counts', 'kilometer', 'mu']


def unknown(case):
    rng = case.rng
    if case.idx < len(WORDS):
        w = WORDS[case.idx]
    else:
        w = ''.join(rng.choice(list('abcdefghijklnopqrstuvxyz0123456789 /-'), int(rng.integers(1, 7))))
        if rng.random() < .4:
            w += 'm'
    if w.lower() in {u for u, _ in SPELL} | {'@m'}:
        return
    case.event('unknown', w)
    case.note(w=w)
    u = SPELL[rng.integers(len(SPELL))][0]
    case.raises('an unknown unit is refused', ValueError, lambda: get_unit_conversion(w, u), unit=w)
    case.raises('an unknown target is refused', ValueError, lambda: get_unit_conversion(u, w), unit=w)
    case.raises('an unknown unit is refused', ValueError, lambda: get_unit_conversion(w, w), unit=w)


def files(case):
    """The same surface in other units."""
    rng = case.rng
    ny, nx = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    z = rng.normal(size=(ny, nx)) * float(rng.choice([.01, 1, 30])) + float(rng.choice([0, 5]))
    sx, sy = float(rng.choice([.1, .5, 1.0, 2.25])), float(rng.choice([.1, .5, 1.0, 2.25]))
    fmt = ('fits', 'gwy', 'sur')[case.idx % 3]
    case.event(fmt)
    us = {'fits': ['m', 'mm', 'um', 'nm', 'µm', 'cm', 'pm'], 'gwy': ['m', 'mm', 'um', 'nm', 'pm', 'cm', 'dm'],
          'sur': ['m', 'mm', 'um', 'nm', 'µm', 'cm', 'pm']}[fmt]
    combos = [[str(u) for u in rng.choice(us, 3)] for _ in range(4)]
    case.note(fmt=fmt, combos=combos, shape=[ny, nx], zz=float(z[0, 0]))
    for ux, uy, uz in combos:
        if fmt == 'fits':
            e = encode.fits(rng, ux, uy, uz, z_um=z, sx=sx, sy=sy)
        elif fmt == 'gwy':
            uy = ux
            e = encode.gwy(rng, ux, uz, z_um=z, sx=sx, sy=sy)
        else:
            e = encode.sur(rng, [ux, uy, uz], z_um=z, sx=sx, sy=sy)
        tol = 1e-12 if fmt != 'sur' else 2e-7
        scale = np.ptp(z) + np.abs(z).max()
        s = fm.load(io.BytesIO(e.data), format=e.suffix, **({'encoding': e.encodings[-1]} if fmt == 'sur' and rng.random() < .5 else {}))
        fm.same_surface(case, f'{fmt} in {ux}, {uy}, {uz}', s, z, sx, sy, np.full(z.shape, (3e-9 if fmt == 'sur' else tol) * scale), tol, units=[ux, uy, uz])
        if fmt != 'sur':
            case.close('roughness in other units', s.Sq(), Surface(z, sx, sy).Sq(), rtol=1e-9)


def unknown_in_file(case):
    rng = case.rng
    fmt = ('fits', 'sur', 'gwy')[case.idx % 3]
    bad = str(rng.choice(['in', 'V', 'a.u.', 'km', 'xx']))
    enc = dict(encode.UM)
    z = rng.normal(size=(4, 5))
    case.event('unknown in file')
    case.note(fmt=fmt, bad=bad, zz=float(z[0, 0]))
    which = int(rng.integers(3)) if fmt != 'gwy' else 2 * int(rng.integers(2))
    units = ['um'] * 3
    units[which] = bad
    try:
        encode.UM[bad] = 1.0
        if fmt == 'fits':
            e = encode.fits(rng, *units, z_um=z, sx=1.0, sy=1.0)
        elif fmt == 'gwy':
            e = encode.gwy(rng, units[0], units[2], z_um=z, sx=1.0, sy=1.0)
        else:
            e = encode.sur(rng, units, z_um=z, sx=1.0, sy=1.0)
    finally:
        encode.UM.clear()
        encode.UM.update(enc)
    if fmt == 'gwy' and which == 2 and e.what['decoy']:
        return
    p = os.path.join(case.tmp, 'f' + e.suffix)
    with open(p, 'wb') as fh:
        fh.write(e.data)
    case.raises(f'{fmt} with an unknown unit', Exception, lambda: fm.load(p), units=units)


STAGES = [Stage('pairs', pairs, 4000, 180000), Stage('misdecoded', misdecoded, 2000, 18000), Stage('unknown', unknown, 3000, 120000),
          Stage('files', files, 4000, 180000), Stage('unknown_in_file', unknown_in_file, 150, 6000)]
