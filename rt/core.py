"""Runtime-monitoring core: case runner, monitors, verdicts, evidence.

A property module (rt/props/cXX.py) declares stages.  A stage is a function that takes a Case, drives the real code
in /repo with inputs drawn from case.rng and reports every observation to the case's monitor (check/close/same/...).
The verdict is three-valued: violated (exit 1, VIOLATION line, replay file), held on everything observed (exit 0),
inconclusive (exit 2: a monitor that has to be reached was not reached, a worker died, ...).
"""
import hashlib
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from dataclasses import dataclass

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ['TQDM_DISABLE'] = '1'
REPO = os.environ.get('RT_REPO', '/repo')
NWORKERS = int(os.environ.get('RT_WORKERS', min(8, os.cpu_count() or 1)))
MAX_VIOLATIONS_PER_WORKER = 2


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Inconclusive(Exception):
    pass


@dataclass
class Stage:
    name: str
    fn: object
    quick: int
    thorough: int
    timeout: float = 120.0          # watchdog per case (seconds)
    hang_violates: bool = False     # a watchdog firing twice is a violation (else inconclusive)
    serial: bool = False            # run in a single worker (stages that measure threads)
    large: int = 0                  # every n-th case works on large surfaces (0: none)
    huge: int = 0                   # case n // 2 of every n works on a surface of several million points (0: none)


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        if x.size <= 64:
            return {'shape': list(x.shape), 'values': _jsonable(x.ravel().tolist())}
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'sha1': digest(x)}
    if isinstance(x, np.generic):
        return _jsonable(x.item())
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:16]


class Case:
    """One execution of a stage: PRNG, event log, monitor."""

    def __init__(self, prop, stage, idx, seed, tier, scratch):
        self.prop, self.stage, self.idx, self.seed, self.tier = prop, stage, idx, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(stage.encode()), idx])
        self.events = []
        self.counters = {}
        self.nchecks = 0
        self.desc = {}
        self._scratch_root = scratch
        self._scratch = None

    # -- scratch directory ------------------------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='case_', dir=self._scratch_root)
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)

    # -- event log --------------------------------------------------------------------------------------------------
    def note(self, **kw):
        """Describes the case (used for the evidence samples and to tell distinct cases apart)."""
        self.desc.update(kw)

    def event(self, kind, detail=None):
        self.count('event:' + kind)
        if len(self.events) < 400:
            self.events.append((kind, detail))

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    # -- monitors ---------------------------------------------------------------------------------------------------
    def fail(self, what, /, **data):
        self.fail_data = _jsonable(data)
        raise Violation(what)

    def check(self, cond, what, /, **data):
        self.nchecks += 1
        if not cond:
            self.fail(what, **data)

    def same(self, what, got, want, /, **data):
        """Bit-identical values (NaN equals NaN), same shape."""
        self.nchecks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail(f'{what}: shape {g.shape} != {w.shape}', **data)
        if g.dtype.kind in 'fc' or w.dtype.kind in 'fc':
            ok = np.array_equal(g, w, equal_nan=True)
        else:
            ok = np.array_equal(g, w)
        if not ok:
            self.fail(f'{what}: differs', **{'got': got, 'want': want, **data})

    def close(self, what, got, want, /, rtol=1e-9, atol=0.0, **data):
        """Numerically equal within rtol*max(|want|) + atol; NaNs have to coincide."""
        self.nchecks += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self.fail(f'{what}: not a number', **{'got': got, 'want': want, **data})
        if g.shape != w.shape:
            self.fail(f'{what}: shape {g.shape} != {w.shape}', **data)
        gn, wn = np.isnan(g), np.isnan(w)
        if not np.array_equal(gn, wn):
            self.fail(f'{what}: NaN pattern differs', **{'got': got, 'want': want, **data})
        if g.size == 0:
            return
        fin = np.isfinite(w)
        scale = np.max(np.abs(w[fin])) if fin.any() else 0.0
        tol = rtol * scale + atol
        inf = ~fin & ~wn
        if not np.array_equal(g[inf], w[inf]):
            self.fail(f'{what}: infinities differ', **{'got': got, 'want': want, **data})
        d = np.abs(g[fin] - w[fin])
        if not np.all(d <= tol):
            self.fail(f'{what}: off by {np.nanmax(d):.6g} (tolerance {tol:.3g})', **{'got': got, 'want': want, **data})

    def close_any(self, what, got, wants, /, rtol=1e-9, atol=0.0, **data):
        self.nchecks += 1
        g = float(got)
        for w in wants:
            w = float(w)
            if (np.isnan(w) and np.isnan(g)) or w == g or abs(g - w) <= rtol * abs(w) + atol:
                return
        self.fail(f'{what}: {g!r} matches none of the accepted values', **{'got': got, 'wants': list(wants)[:12], **data})

    def within(self, what, got, lo, hi, /, slack=0.0, **data):
        self.nchecks += 1
        g = float(got)
        if not (lo - slack <= g <= hi + slack):
            self.fail(f'{what}: {g!r} outside [{lo!r}, {hi!r}]', slack=slack, **data)

    def raises(self, what, exc, fn, /, **data):
        """fn has to raise one of exc; anything else is a violation. Returns the exception."""
        self.nchecks += 1
        try:
            res = fn()
        except exc as e:
            return e
        except Exception as e:
            self.fail(f'{what}: raised {type(e).__name__} ({e}) instead', **data)
        self.fail(f'{what}: accepted, no error raised', returned=repr(res)[:200], **data)


def exc_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb][-4:]
    return f'{type(e).__name__}: {e} @ ' + ' > '.join(where)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, stage, idx, seed, tier, scratch):
    """Returns (case, violation message or None, timed_out)."""
    case = Case(mod.ID, stage.name, idx, seed, tier, scratch)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, stage.timeout)
    msg, timed_out = None, False
    try:
        if stage.huge and idx % stage.huge == stage.huge // 2:
            from . import gen
            case.event('huge surface')
            with gen.forced(*gen.huge_size(case.rng)):
                stage.fn(case)
        elif stage.large and idx % stage.large == idx // stage.large % stage.large:
            from . import gen
            case.event('large surface')
            with gen.forced(*gen.large_size(case.rng)):
                stage.fn(case)
        else:
            stage.fn(case)
    except Violation as e:
        msg = str(e)
    except CaseTimeout:
        timed_out = True
    except Inconclusive:
        raise
    except MemoryError as e:
        timed_out = True
        case.desc['memory_error'] = str(e)
    except Exception as e:
        msg = 'unexpected exception on valid input: ' + exc_text(e)
        case.fail_data = {'traceback': traceback.format_exc().splitlines()[-14:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
        case.cleanup()
    return case, msg, timed_out


def _worker(mod, stages, tier, seed, wid, nworkers, deadline, scratch, out):
    import warnings
    warnings.simplefilter('ignore')
    res = dict(evaluations=0, checks=0, counters={}, sigs=set(), samples=[], violations=[], timeouts=[],
               skipped=0, per_stage={}, error=None)
    try:
        # the stages advance side by side, so that a time budget cuts the same share off each of them
        plan = []
        for k, stage in enumerate(stages):
            n = stage.quick if tier == 'quick' else stage.thorough
            if not (stage.serial and wid != 0):
                plan += [((idx + 0.5) / n, k, idx, n) for idx in (range(n) if stage.serial else range(wid, n, nworkers))]
        plan.sort()
        for _, k, idx, n in plan:
            stage = stages[k]
            t0 = time.monotonic()
            if t0 > deadline:
                res['skipped'] += 1
                continue
            case, msg, timed_out = run_case(mod, stage, idx, seed, tier, scratch)
            if timed_out:
                case, msg, timed_out = run_case(mod, stage, idx, seed, tier, scratch)
                if timed_out and stage.hang_violates:
                    msg = f'no answer within {stage.timeout:.0f} s (twice)'
                    case.fail_data = {}
                    timed_out = False
                elif timed_out:
                    res['timeouts'].append([stage.name, idx])
                    if len(res['timeouts']) > 3:
                        raise Inconclusive('repeated watchdog timeouts')
            res['evaluations'] += 1
            res['checks'] += case.nchecks
            for key, v in case.counters.items():
                res['counters'][key] = res['counters'].get(key, 0) + v
            if case.nchecks and not timed_out:
                sig = hashlib.sha1(repr((stage.name, _jsonable(case.desc), case.events[:50])).encode()).digest()[:10]
                res['sigs'].add(sig)
                if idx % max(1, n // 3) == wid % max(1, n // 3) and len(res['samples']) < 2 * len(stages):
                    res['samples'].append({'stage': stage.name, 'index': idx, 'checks': case.nchecks,
                                           'case': _jsonable(case.desc),
                                           'events': [_jsonable(e) for e in case.events[:12]]})
            ps = res['per_stage'].setdefault(stage.name, [0, 0.0])
            ps[0] += 1
            ps[1] += time.monotonic() - t0
            if msg is not None:
                res['violations'].append(dict(stage=stage.name, index=idx, message=msg, case=_jsonable(case.desc),
                                              events=[_jsonable(e) for e in case.events[-40:]],
                                              data=getattr(case, 'fail_data', {})))
                if len(res['violations']) >= MAX_VIOLATIONS_PER_WORKER:
                    raise StopIteration
    except StopIteration:
        pass
    except BaseException as e:
        res['error'] = exc_text(e)
    with open(out, 'wb') as fh:
        pickle.dump(res, fh)


def load_known(prop):
    known = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line.startswith('open:') and f'property={prop} ' in line:
                rest = line.split(f'property={prop} ', 1)[1]
                key = rest.split(' ', 1)[0].removeprefix('key=')
                known.append((key, rest.split(' ', 1)[1]))
    return known


def import_sut():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot, numpy, scipy.ndimage, scipy.signal, scipy.optimize, scipy.interpolate, pandas, PIL  # noqa
    # Byte code of the code under test is never taken from a cache (it is matched by time and size only)
    sys.pycache_prefix = tempfile.mkdtemp(prefix='pyc_')
    import surfalize
    where = os.path.realpath(surfalize.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive(f'surfalize was imported from {where}, not from {REPO}')
    return surfalize


def write_replay(prop, tier, seed, v):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{v['stage']}-{v['index']}-{seed}.json")
    with open(path, 'w') as fh:
        json.dump(dict(property=prop, tier=tier, seed=seed, **v), fh, indent=1)
    return path


def run_property(mod, tier, seed):
    t0 = time.monotonic()
    prop = mod.ID
    known = load_known(prop)
    budget = float(os.environ.get('RT_BUDGET', 420 if tier == 'quick' else 760))
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix=f'rt_{prop}_')
    problems = []
    try:
        nw = NWORKERS
        outs, pids = [], []
        sys.stdout.flush()
        for w in range(nw):
            out = os.path.join(scratch, f'w{w}.pkl')
            outs.append(out)
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    wscratch = os.path.join(scratch, f's{w}')
                    os.makedirs(wscratch)
                    _worker(mod, mod.STAGES, tier, seed, w, nw, deadline, wscratch, out)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            pids.append(pid)
        for pid in pids:
            _, status = os.waitpid(pid, 0)
            if status != 0:
                problems.append(f'worker ended with status {status}')
        results = []
        for out in outs:
            if os.path.exists(out):
                with open(out, 'rb') as fh:
                    results.append(pickle.load(fh))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    counters, sigs, samples, violations, per_stage = {}, set(), [], [], {}
    evaluations = checks = skipped = 0
    for r in results:
        evaluations += r['evaluations']
        checks += r['checks']
        skipped += r['skipped']
        sigs |= r['sigs']
        samples += r['samples'][:4]
        violations += r['violations']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, (n, t) in r['per_stage'].items():
            p = per_stage.setdefault(k, [0, 0.0])
            p[0] += n
            p[1] = round(p[1] + t, 2)
        if r['error']:
            problems.append('worker error: ' + r['error'])
        if r['timeouts']:
            problems.append(f"watchdog fired: {r['timeouts'][:3]}")

    # Known findings: each has a dedicated deterministic probe
    probes = getattr(mod, 'PROBES', {})
    known_reported = []
    for key, what in known:
        if key not in probes:
            problems.append(f'known finding {key} has no probe')
            continue
        try:
            present = probes[key]()
        except Exception as e:
            present = False
            problems.append(f'known-finding probe {key}: ' + exc_text(e))
        if present:
            known_reported.append(key)
            print(f'KNOWN-FINDING: property={prop} {what}')

    if not violations:
        for name, minimum in getattr(mod, 'REQUIRED', {}).items():
            if counters.get(name, 0) < minimum:
                problems.append(f'monitor {name} observed {counters.get(name, 0)} < {minimum} events')
        if checks == 0:
            problems.append('no observation was made')
    wall = time.monotonic() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(sigs),
            'rule': mod.RULE + ' Non-trivial: at least one oracle decision was made in the case; distinct: different '
                               'stage, case description or event log.',
            'samples': samples[:24],
            'oracle_decisions': checks,
            'observed_events': dict(sorted(counters.items())),
            'cases_and_cpu_seconds_per_stage': per_stage,
            'skipped_by_time_budget': skipped,
            'known_findings_observed': known_reported,
            'inconclusive_reasons': problems,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)

    if violations:
        violations.sort(key=lambda v: (v['stage'], v['index']))
        for v in violations[:3]:
            path = write_replay(prop, tier, seed, v)
            print(f"  [{v['stage']}#{v['index']}] {v['message']}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    summary = f'{prop} {tier}: {evaluations} cases, {checks} oracle decisions, {len(sigs)} distinct, {wall:.1f} s'
    if problems:
        print('INCONCLUSIVE ' + summary)
        for p in problems:
            print('  ' + p)
        return 2
    print('HELD ' + summary + (f', {skipped} cases skipped by the time budget' if skipped else ''))
    return 0


def replay(mod, path):
    import warnings
    warnings.simplefilter('ignore')
    rec = json.load(open(path))
    stage = next(s for s in mod.STAGES if s.name == rec['stage'])
    scratch = tempfile.mkdtemp(prefix='rt_replay_')
    try:
        case, msg, timed_out = run_case(mod, stage, rec['index'], rec['seed'], rec['tier'], scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if timed_out and stage.hang_violates:
        msg = 'no answer (watchdog)'
    print(json.dumps({'case': _jsonable(case.desc), 'events': [_jsonable(e) for e in case.events[-40:]],
                      'data': getattr(case, 'fail_data', {})}, indent=1)[:6000])
    if msg:
        print(f'  [{stage.name}#{rec["index"]}] {msg}')
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    print('replayed: no violation')
    return 2 if timed_out else 0
