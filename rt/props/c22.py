"""C22: surface arithmetic, equality and hashing."""
import numpy as np
from surfalize import Surface
from rt import gen
from rt.core import Stage

ID = 'C22'
RULE = ('Random surfaces (with holes, both memory orders, all shapes and step sizes) combined with surfaces and numbers in '
        'both operand orders; results against elementwise evaluation in the harness; triples of equal, nearly equal and '
        'different surfaces for the laws of equality and hashing.')
ASSUMPTIONS = ['Heights that differ by less than 1e-10 may count as equal.', 'Numbers are int and float (and their subclasses).']
REQUIRED = {'event:binary': 300, 'event:scalar': 300, 'event:refused': 300, 'event:equal': 200, 'event:different': 400}


def elementwise(a, b, f):
    fa, fb = np.broadcast_arrays(a, b)
    return np.array([f(float(x), float(y)) for x, y in zip(fa.ravel(), fb.ravel())]).reshape(fa.shape)


OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}


def apply(op, a, b):
    return eval(f'a {op} b', {'a': a, 'b': b})


def binary(case):
    rng = case.rng
    nan = rng.random() < 0.4
    a, d = gen.surface(rng, 3, 24, nan=nan)
    z = gen.heights(rng, *a.data.shape)[0]
    z[np.abs(z) < 1e-6] = 0.5
    if rng.random() < 0.3:
        z[gen.nan_mask(rng, *z.shape)] = np.nan
    b = Surface(z, a.step_x, a.step_y)
    if rng.random() < 0.1:
        b = a if not np.any(np.asarray(a.data) == 0) else b
    op = list(OPS)[rng.integers(4)]
    case.note(op=op, same=b is a, **d)
    case.event('binary', op)
    sa, sb = gen.snap(a), gen.snap(b)
    r = apply(op, a, b)
    case.check(type(r) is Surface, 'type of the result')
    case.close(f'surface {op} surface', r.data, elementwise(a.data, b.data, OPS[op]), rtol=1e-13)
    case.check((r.step_x, r.step_y) == (a.step_x, a.step_y), 'step sizes of the result')
    case.check(not np.shares_memory(r.data, a.data) and not np.shares_memory(r.data, b.data), 'result shares memory with an operand')
    case.check(gen.snap_diff(sa, gen.snap(a)) is None and gen.snap_diff(sb, gen.snap(b)) is None, 'an operand changed')
    if op in '+*':
        case.same(f'{op} commutes', apply(op, b, a).data, r.data)
    if op == '-':
        case.close('a - b = -(b - a)', (b - a).data, -np.asarray(r.data), rtol=1e-13)
    # augmented assignment leaves the operands alone
    c = a
    c += b
    case.check(c is not a and gen.snap_diff(sa, gen.snap(a)) is None, 'augmented assignment changed the operand')


def scalar(case):
    rng = case.rng
    a, d = gen.surface(rng, 3, 24, nan=rng.random() < 0.4)
    k = [int(rng.integers(1, 9)), -int(rng.integers(1, 9)), float(rng.normal() * 10), np.float64(rng.uniform(0.1, 5)), 0.5,
         1e-3, True, 1, 1.0, 0, 0.0][rng.integers(11)]
    op = list(OPS)[rng.integers(4 if k != 0 else 3)]
    case.note(op=op, number=repr(k), **d)
    case.event('scalar', op)
    sa = gen.snap(a)
    r = apply(op, a, k)
    case.check(type(r) is Surface, 'type of the result')
    case.close(f'surface {op} number', r.data, elementwise(a.data, float(k), OPS[op]), rtol=1e-13)
    case.check((r.step_x, r.step_y) == (a.step_x, a.step_y), 'step sizes of the result')
    case.check(not np.shares_memory(r.data, a.data), 'result shares memory with the operand')
    if op != '/' and not isinstance(k, np.generic):
        r = apply(op, k, a)
        case.check(type(r) is Surface, 'type of the result')
        case.close(f'number {op} surface', r.data, elementwise(float(k), a.data, OPS[op]), rtol=1e-13)
        case.check((r.step_x, r.step_y) == (a.step_x, a.step_y), 'step sizes of the result')
    case.check(gen.snap_diff(sa, gen.snap(a)) is None, 'the operand changed')


def refused(case):
    rng = case.rng
    a, d = gen.surface(rng, 4, 20)
    case.note(**d)
    z = np.array(a.data)
    others = {'more rows': Surface(np.vstack([z, z[:1]]), a.step_x, a.step_y),
              'fewer columns': Surface(z[:, :-1].copy(), a.step_x, a.step_y),
              'one row': Surface(z[:1].copy(), a.step_x, a.step_y),
              'one column': Surface(z[:, :1].copy(), a.step_x, a.step_y),
              'step_x': Surface(z, a.step_x * 1.25, a.step_y),
              'step_y': Surface(z, a.step_x, a.step_y * 0.5),
              'step_x a little': Surface(z, a.step_x * 1.0001, a.step_y),
              'step_y a little': Surface(z, a.step_x, a.step_y * 0.9999),
              'array': z, 'string': 'x', 'none': None, 'list': [1.0]}
    if rng.random() < .3:
        a = Surface(z, 5e-7, 6e-7)
        others['step_x'], others['step_y'] = Surface(z, 9e-7, 6e-7), Surface(z, 5e-7, 3e-7)
    if z.shape[0] != z.shape[1]:
        others['transposed'] = Surface(np.ascontiguousarray(z.T), a.step_x, a.step_y)
    op = list(OPS)[rng.integers(4)]
    for name, o in others.items():
        case.event('refused', name)
        if name == 'array' and op == '/':
            continue
        case.raises(f'surface {op} {name}', (ValueError, TypeError), lambda: apply(op, a, o))


def equality(case):
    rng = case.rng
    a, d = gen.surface(rng, 3, 20, nan=rng.random() < 0.5)
    case.note(**d)
    z = np.array(a.data)
    b = Surface(np.array(z, order='F' if rng.random() < 0.5 else 'C'), a.step_x, a.step_y)
    c = gen.clone(b)
    case.event('equal')
    case.check(a == a and a == b and b == a and b == c and a == c, 'equal surfaces compare as equal')
    case.check(not (a != b), 'equal surfaces compare as not different')
    case.check(hash(a) == hash(b) == hash(c) == hash(a), 'equal surfaces have equal hashes')
    case.check(len({a, b, c}) == 1 and {a: 1}[c] == 1, 'equal surfaces are one key')
    case.check(a == Surface(z, float(a.step_x), a.step_y, metadata={'x': 1}), 'metadata does not matter')
    if rng.random() < 0.5:
        # reading parameters does not affect equality or hash
        h = hash(a)
        if not np.isnan(z).any():
            a.Sa(), a.Sdq()
        case.check(a == b and hash(a) == h, 'reads changed equality or hash')
    # every single difference is noticed
    diffs = []
    y, x = int(rng.integers(z.shape[0])), int(rng.integers(z.shape[1]))
    for _ in range(3):
        w = z.copy()
        i = int(rng.integers(z.size))
        w.flat[i] = 1.0 if np.isnan(w.flat[i]) else w.flat[i] + float(rng.choice([-1, 1])) * max(1e-6, abs(w.flat[i]) * 1e-3)
        diffs.append(('a height', Surface(w, a.step_x, a.step_y)))
    # a difference that is small compared to the heights or smaller than usual steps
    off = float(rng.choice([0, 10., 1000., 2e5]))
    w = z + off
    i = int(rng.integers(z.size))
    if not np.isnan(w.flat[i]):
        far = w.copy()
        w.flat[i] += 1e-6 * max(1, off / 1000)
        q = Surface(far, a.step_x, a.step_y)
        e = Surface(w, a.step_x, a.step_y)
        case.check(not (q == e) and q != e and not (e == q), 'surfaces that differ in a height compare as equal', offset=off)
    q = Surface(z, 5e-7, 5e-7)
    for o in (Surface(z, 9e-7, 5e-7), Surface(z, 5e-7, 9e-7)):
        case.check(not (q == o) and q != o and not (o == q), 'surfaces that differ in a small step compare as equal')
    w = z.copy()
    w[y, x] = 1.0 if np.isnan(w[y, x]) else np.nan
    diffs.append(('a hole', Surface(w, a.step_x, a.step_y)))
    diffs.append(('step_x', Surface(z, a.step_x * 1.0001, a.step_y)))
    diffs.append(('step_y', Surface(z, a.step_x, a.step_y * 1.0001)))
    if a.step_x != a.step_y:
        diffs.append(('swapped steps', Surface(z, a.step_y, a.step_x)))
    diffs.append(('one row less', Surface(z[:-1].copy(), a.step_x, a.step_y)))
    if z.shape[0] != z.shape[1]:
        diffs.append(('shape', Surface(z.reshape(z.shape[::-1]), a.step_x, a.step_y)))
    for name, o in diffs:
        case.event('different', name)
        case.check(not (a == o) and not (o == a) and a != o, f'surfaces that differ in {name} compare as equal')
    for o in (None, 1, 'x', object()):
        case.check(not (a == o) and a != o, 'a surface equals something else')
    case.check(a == (a + 0.0) and a == a * 1, 'neutral operations')
    # editing makes the difference visible
    e = gen.clone(a)
    h = hash(e)
    e[y, x] = 12345.0
    case.check(e != a, 'an edited surface compares as equal')


def boundary(case):
    """Surfaces that differ by less than the tolerance, with heights and statistics next to numbers where roundings jump."""
    rng = case.rng
    ny, nx = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    k = int(rng.integers(0, 11))
    kind = int(rng.integers(4))
    m = int(rng.integers(-50, 50))
    v = float([(m + .5) * 10. ** -k, m * 10. ** -k, (np.float32(m + .3) + np.nextafter(np.float32(m + .3), np.float32(1e9))) / 2.0,
               float(np.float32((m + .5) * 10. ** -k))][kind])
    base = np.full((ny, nx), v)
    shape = int(rng.integers(4))
    if shape == 1:      # v is the largest or smallest height
        base = v + float(rng.choice([-1, 1])) * rng.uniform(.1, 1, (ny, nx))
        base.flat[int(rng.integers(base.size))] = v
    elif shape == 2:    # v is the mean
        r = rng.normal(size=(ny, nx))
        base = v + r - r.mean()
    elif shape == 3:    # v at a corner
        base = v + rng.normal(size=(ny, nx))
        base.flat[int(rng.choice([0, base.size - 1]))] = v
    if rng.random() < .3:
        hole = int(rng.integers(base.size))
        if base.flat[hole] != v or shape == 0:
            base.flat[hole] = np.nan
    d = float(rng.choice([4e-11, 1e-11, 1e-13, 1e-15]))
    case.note(shape=[ny, nx], value=v, kind=kind, delta=d, at=shape)
    case.event('boundary')
    st = (float(rng.choice([1.0, .5, .1])), float(rng.choice([1.0, .5, .3])))
    family = [Surface(base + f * d, *st) for f in (-1, -.5, 0, .5, 1)]
    for a in family:
        for b in family:
            case.check(a == b, 'surfaces within the tolerance are equal')
            case.check(hash(a) == hash(b), 'equal surfaces have equal hashes')
    case.check(len(set(family)) == 1, 'equal surfaces are one key')


STAGES = [Stage('boundary', boundary, 1500, 30000), Stage('binary', binary, 6000, 120000, large=200, huge=3000), Stage('scalar', scalar, 6000, 120000, large=200, huge=3000), Stage('refused', refused, 2250, 30000, large=250, huge=1125),
          Stage('equality', equality, 6000, 120000, large=200, huge=3000)]
