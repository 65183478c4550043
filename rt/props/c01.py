"""C01: a parameter never reflects an earlier state of the object (cache coherence)."""
import numpy as np
from surfalize import Surface, Profile
from rt import gen, ops
from rt.core import Stage

ID = 'C01'
RULE = ('Histories of parameter reads (all parameters, several argument variants), in-place operations, element '
        'assignments and replacements of the height data on one object; after every event the value of each read is '
        'compared with the value computed by a fresh object built from the same samples.')
ASSUMPTIONS = ['The step size attributes are not assigned directly after construction.',
               'A fresh object built from the same samples and step sizes is the reference for a read.']
REQUIRED = {'reads_compared': 2000, 'event:mutate': 200}

MUT_SURFACE = ['setitem_scalar', 'setitem_row', 'setitem_mask', 'setitem_array', 'setitem_nan', 'data']


def mutate_surface(rng, s, what):
    ny, nx = s.data.shape
    lo, hi = np.nanmin(s.data), np.nanmax(s.data)
    span = hi - lo if hi > lo else 1.0
    if what == 'setitem_scalar':
        s[int(rng.integers(ny)), int(rng.integers(nx))] = hi + span
    elif what == 'setitem_row':
        s[int(rng.integers(ny))] = lo - span * rng.random(nx)
    elif what == 'setitem_mask':
        with np.errstate(all='ignore'):
            s[np.array(s.data) > lo + span * 0.6] = lo + 0.3 * span
    elif what == 'setitem_array':
        y0, x0 = int(rng.integers(ny)), int(rng.integers(nx))
        blk = s.data[y0:y0 + 3, x0:x0 + 3].shape
        s[y0:y0 + 3, x0:x0 + 3] = hi + span * rng.random(blk)
    elif what == 'setitem_nan':
        s[int(rng.integers(ny)), int(rng.integers(nx))] = np.nan
    else:
        ny2, nx2 = int(rng.integers(4, 30)), int(rng.integers(4, 30))
        s.data = gen.heights(rng, ny2, nx2)[0]


def mutate_profile(rng, p, what):
    n = p.data.shape[0]
    lo, hi = np.nanmin(p.data), np.nanmax(p.data)
    span = hi - lo if hi > lo else 1.0
    if what == 'setitem_scalar':
        p[int(rng.integers(n))] = hi + span
    elif what == 'setitem_row':
        p[:n // 2] = lo - span * rng.random(n // 2)
    elif what == 'setitem_mask':
        with np.errstate(all='ignore'):
            p[np.array(p.data) > lo + span * 0.6] = lo + 0.3 * span
    elif what == 'setitem_array':
        p[-3:] = hi + span * rng.random(3)
    elif what == 'setitem_nan':
        p[int(rng.integers(n))] = np.nan
    else:
        p.data = gen.heights(rng, 2, int(rng.integers(8, 60)))[0][0].copy()


ABBOTT = {'Sk', 'Spk', 'Svk', 'Spkx', 'Svkx', 'Sak1', 'Sak2', 'Smr1', 'Smr2', 'Smrk1', 'Smrk2', 'Sxp', 'Sdc', 'Vmp', 'Vmc',
          'Vvv', 'Vvc', 'Vm', 'Vv', 'Smr', 'Smc', 'abbott.k', 'abbott.mc', 'abbott.vmc(p)', 'abbott.vmc(q)', 'abbott.vvc(p)', 'abbott.vvc(q)', 'Rk', 'Rpk', 'Rvk', 'Rpkx', 'Rvkx', 'Rak1', 'Rak2',
          'Rmr1', 'Rmr2', 'Rmrk1', 'Rmrk2', 'Rxp', 'Rdc', 'Rmr', 'Rmc'}


def fresh(obj):
    if isinstance(obj, Profile):
        return Profile(np.array(obj.data, order='K'), obj.step)
    return Surface(np.array(obj.data, order='K'), obj.step_x, obj.step_y)


def compare(case, obj, reads, tag, skip=(), individually=False):
    """Every read of obj against a fresh object. The expensive material-ratio reads share one fresh object on which
    they are made in the opposite order (so that answers of one argument set for another still differ)."""
    contiguous = obj.data.flags['C_CONTIGUOUS'] or obj.data.flags['F_CONTIGUOUS']
    reads = [f for f in reads if f.base not in skip and (contiguous or f.base not in ops.OPTIMISED)]
    want = {}
    if not individually:
        shared = fresh(obj)
        for f in reversed(reads):
            if f.base in ABBOTT:
                want[id(f)] = ops.evaluate(f, shared)
    for f in reads:
        got = ops.evaluate(f, obj)
        w = want[id(f)] if id(f) in want else ops.evaluate(f, fresh(obj))
        case.count('reads_compared')
        case.check(ops.equal_values(got, w, 1e-6 if f.base in ops.OPTIMISED else 1e-9),
                   f'{f.label} {tag} is not the value of the current data', got=repr(got)[:300], want=repr(w)[:300])


def all_mutators(rng, obj):
    if isinstance(obj, Profile):
        return [(o.label, (lambda ob, o=o: o(ob, True)), o) for o in ops.profile_ops(rng, obj)] + [
            (m, (lambda ob, m=m: mutate_profile(rng, ob, m)), None) for m in MUT_SURFACE]
    return [(o.label, (lambda ob, o=o: o(ob, True)), o) for o in ops.surface_ops(rng, obj)] + [
        (m, (lambda ob, m=m: mutate_surface(rng, ob, m)), None) for m in MUT_SURFACE]


def usable(obj):
    d = obj.data
    return d.size and min(d.shape) >= 3 and np.isfinite(d).any()


def pairwise(case):
    """Warm every cached value, apply one mutator, every read has to be fresh (complete mutator x read matrix)."""
    rng = case.rng
    prof = case.idx % 3 == 2
    k = case.idx // 3 if prof else case.idx - case.idx // 3
    if prof:
        obj, d = gen.profile(rng, 30, 90)
    else:
        obj, d = gen.surface(rng, 12, 26, nan=False)
    muts = all_mutators(rng, obj)
    label, fn, op = muts[k % len(muts)]
    if op is not None and op.method == 'fill_nonmeasured' or rng.random() < 0.1:
        if op is None or not op.needs_full:
            obj[tuple(int(rng.integers(n)) for n in obj.data.shape)] = np.nan
    reads = ops.profile_reads(rng, obj) if prof else ops.surface_reads(rng, obj, heavy=k // len(muts) % 3 == 0)
    case.note(object='profile' if prof else 'surface', mutator=label, **d)
    order = rng.permutation(len(reads))
    for i in order:
        ops.evaluate(reads[i], obj)
    case.event('mutate', label)
    try:
        fn(obj)
    except Exception as e:
        case.event('refused', type(e).__name__)
    if not usable(obj):
        return
    case.count('pair:' + label.split('(')[0])
    compare(case, obj, [reads[i] for i in rng.permutation(len(reads))], f'after {label}')


def history(case):
    rng = case.rng
    prof = rng.random() < 0.3
    if prof:
        obj, d = gen.profile(rng, 20, 90, nan=rng.random() < 0.2)
    else:
        obj, d = gen.surface(rng, 8, 24, nan=rng.random() < 0.2)
    case.note(object='profile' if prof else 'surface', **d)
    skip = ()
    for step in range(int(rng.integers(4, 10))):
        muts = all_mutators(rng, obj)
        reads = ops.profile_reads(rng, obj) if prof else ops.surface_reads(rng, obj, heavy=rng.random() < 0.15)
        some = [reads[i] for i in rng.choice(len(reads), size=int(rng.integers(3, 9)), replace=False)]
        compare(case, obj, some, 'on first read', skip)
        if rng.random() < 0.5:
            compare(case, obj, some, 'on repeated read', skip)
        label, fn, op = muts[int(rng.integers(len(muts)))]
        if rng.random() < 0.2 and op is not None:
            # continue with the copy returned by the operation: it must not inherit values of its parent
            case.event('copy', label)
            try:
                res = op(obj, False)
            except Exception as e:
                case.event('refused', type(e).__name__)
                continue
            case.check(type(res) is type(obj), f'{label} did not return an object of the same kind')
            if op.method == 'stepheight_level':
                skip = ('stepheight', 'cavity_volume')
            elif res is not obj:
                skip = ()
            obj = res
        else:
            case.event('mutate', label)
            before = np.array(obj.data)
            try:
                fn(obj)
            except Exception as e:
                case.event('refused', type(e).__name__)
            # the mask handed over by stepheight_level stands as long as the data are the same
            if not np.array_equal(before, obj.data, equal_nan=True):
                skip = ()
        if not usable(obj):
            return
        compare(case, obj, some, f'after {label}', skip)


def arguments(case):
    """Reads with different arguments never answer for one another."""
    rng = case.rng
    s, d = gen.surface(rng, 10, 24)
    case.note(**d)
    reads = []
    for _ in range(2):
        reads += [r for r in ops.surface_reads(rng, s) if '()' not in r.label or rng.random() < 0.15]
    reads = [reads[i] for i in rng.permutation(len(reads))]
    compare(case, s, reads, 'after reads with other arguments', individually=True)
    case.event('mutate', 'none')


def near(case):
    """Arguments that differ only in late digits, in type or in the way they are passed keep their own answers."""
    rng = case.rng
    prof = case.idx % 4 == 3
    o, d = gen.profile(rng, 40, 200) if prof else gen.surface(rng, 12, 30)
    case.note(object='profile' if prof else 'surface', **d)
    case.event('mutate', 'none')
    R = 'R' if prof else 'S'
    z = np.array(o.data)
    lo, hi = z.min(), z.max()
    if hi <= lo:
        return
    p = float(rng.uniform(15, 40))
    q = float(rng.uniform(55, 85))
    c = float(rng.uniform(lo + 0.2 * (hi - lo), hi - 0.2 * (hi - lo)))
    fam = [('mc', lambda v: [ops._call(R + 'mc', v)], p, 100), ('mr', lambda v: [ops._call(R + 'mr', v)], c, hi - lo),
           ('dc', lambda v: [ops._call(R + 'dc', v, q), ops._call(R + 'dc', 5, 45 + v)], p, 100),
           ('xp', lambda v: [ops._call(R + 'xp', v, q), ops._call(R + 'xp', p=5, q=45 + v)], p, 100),
           ('vol', lambda v: [ops._call('Vmp', v), ops._call('Vmp', p=v), ops._call('Vvv', 45 + v), ops._call('Vvv', q=45 + v)], p, 100),
           ('core', lambda v: [ops._call('Vmc', v, q), ops._call('Vvc', v, q), ops._call('Vmc', 5, 45 + v), ops._call('Vvc', p=5, q=45 + v)], p, 100)]
    if not prof:
        c2 = float(rng.uniform(0.15, 0.6))
        fam += [('s', lambda v: [ops._call('Sal', v), ops._call('Str', s=v),
                                 ops._expr('acf.Sal', lambda ob: ob.get_autocorrelation_function().Sal(v))], c2, 1),
                ('cavity', lambda v: [ops._call('cavity_volume', v), ops._call('cavity_volume', threshold=v)], c2, 1),
                ('V', lambda v: [ops._call('Vm', v), ops._call('Vv', v)], p, 100)]
    else:
        n = int(rng.integers(2, 6))
        fam += [('segments', lambda v: [ops._call('Rz', int(v)), ops._call('Rp', int(v)), ops._call('Rv', int(v))], n, 0)]
    k = rng.permutation(len(fam))[:3]
    reads = []
    for i in k:
        name, make, v, scale = fam[i]
        case.event('near', name)
        if scale == 0:
            steps = [v, v + 1, v + 2]
        else:
            steps = [v] + [v + scale * 10.0 ** -e * float(rng.uniform(1, 3)) for e in (1.6, 2, 3, 4, 5, 6, 8)]
        for w in steps:
            reads += make(w)
            if name == 'segments':
                continue
            if rng.random() < 0.2:
                reads += make(np.float64(w))
    reads = [reads[i] for i in rng.permutation(len(reads))]
    compare_strict(case, o, reads)


def compare_strict(case, o, reads):
    """As compare, but with (almost) exact equality, so that answers for almost equal arguments are told apart."""
    for f in reads:
        got, want = ops.evaluate(f, o), ops.evaluate(f, fresh(o))
        case.count('reads_compared')
        case.check(ops.equal_values(got, want, 1e-13), f'{f.label} answers for other arguments', got=repr(got)[:300], want=repr(want)[:300])


STAGES = [Stage('pairwise', pairwise, 160, 1600), Stage('history', history, 120, 2400, large=24),
          Stage('arguments', arguments, 16, 300),
          Stage('near', near, 72, 2400)]
