"""Seeded search: one run = one forked process = one seed.

A property module (sim.props.cXX) provides
    LEVEL, RULE, REAL, STUB, ASSUMPTIONS      texts for the evidence
    RUNS = dict(quick=..., thorough=...)      number of seeded runs
    fixed(tier) -> [scenario]                 optional directed scenarios
    gen(rng, i, tier) -> scenario             JSON; all decisions of a run
    run(sc, ctx)                              raises Violation
    shrink(sc) -> iterable of smaller scenarios   optional
"""
import copy
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time as _t
import traceback

from sim.boot import VERIF, REPO

now = _t.monotonic
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')
RUN_TIMEOUT = 120.        # wall seconds; far above any run's cost
SCRATCH = None


class Ctx:
    """What one run reports back."""

    def __init__(self, sc, known):
        self.h = hashlib.sha1()
        self.faults = {}
        self.cover = set()
        self.sim_time = 0.
        self.events = 0
        self.trivial = True
        self.unphysical = False
        self.known_hits = []
        self._known = known
        self.trace = []
        self._tmp = None

    def ev(self, *parts):
        """Record an observable event (feeds the replay digest)."""
        self.events += 1
        for p in parts:
            if hasattr(p, 'tobytes'):
                self.h.update(p.tobytes())
            else:
                self.h.update(repr(p).encode())
        if len(self.trace) < 400:
            self.trace.append(' '.join(
                str(p) for p in parts if not hasattr(p, 'tobytes')))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def state(self, *key):
        """A distinct interleaving/state reached (measured over all runs)."""
        self.cover.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def nontrivial(self):
        self.trivial = False

    def known(self, key):
        """True if `key` is a listed known finding (then it is reported as
        such); a violation otherwise stays a violation."""
        if key in self._known:
            self.known_hits.append(key)
            return True
        return False

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=SCRATCH)
        return self._tmp

    def result(self, viol=None):
        return dict(viol=viol, digest=self.h.hexdigest(), faults=self.faults,
                    cover=sorted(self.cover), sim_time=self.sim_time,
                    events=self.events, trivial=self.trivial,
                    known=self.known_hits,
                    unphysical=self.unphysical, trace=self.trace[-60:])


def load_known(prop):
    try:
        data = json.load(open(KNOWN_FILE))
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in data.get('findings', [])
            if e['property'] == prop}


def in_verif_only(tb):
    """True if the innermost frame of a traceback is harness code."""
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last is not None and os.path.abspath(last).startswith(VERIF)


def execute(mod, sc, known):
    """Run a scenario in this process; returns the result dictionary."""
    import numpy as np
    from sim import kernels, clock
    from sim.common import Violation, StepBudget
    from sim.elements import Unphysical
    kernels.reset()
    clock.CLOCK.configure()
    np.random.seed(12345)
    random.seed(12345)
    ctx = Ctx(sc, known)
    try:
        mod.run(sc, ctx)
        viol = None
    except Violation as v:
        viol = dict(kind=v.kind, msg=v.msg)
    except Unphysical:
        ctx.trivial, viol = True, None
        ctx.ev('unphysical')
        ctx.unphysical = True
    except StepBudget as e:
        viol = dict(kind='no-progress', msg=str(e))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        viol = dict(kind='exception:%s@%s:%s:%d' % (
                        type(e).__name__, os.path.basename(tb.filename),
                        tb.name, tb.lineno or 0),
                    msg='%s | %s' % (e, ''.join(
                        traceback.format_exc().splitlines(True)[-9:])))
    finally:
        if ctx._tmp is not None:
            shutil.rmtree(ctx._tmp, ignore_errors=True)
    if viol is not None:
        ctx.ev('VIOLATION', viol['kind'])
    return ctx.result(viol)


def in_child(fn, timeout, quiet=True):
    """Run fn() in a forked process.  Returns ('ok', value), ('died', status)
    or ('timeout', None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.setpgid(0, 0)
        code = 0
        try:
            os.close(r)
            if quiet and not os.environ.get('VERIF_DEBUG'):
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            val = fn()
            data = pickle.dumps(val)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 70
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = now() + timeout
    status = None
    while True:
        left = end - now()
        if left <= 0:
            status = 'timeout'
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    if status == 'timeout':
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        return 'timeout', None
    _, st = os.waitpid(pid, 0)
    if st != 0 or not buf:
        return 'died', st
    return 'ok', pickle.loads(buf)


def one_run(mod, sc, known, timeout=RUN_TIMEOUT):
    """Result of a scenario in a fresh process; hangs and deaths of the
    process are confirmed by a second attempt."""
    for attempt in range(2):
        st, val = in_child(lambda: execute(mod, sc, known),
                           timeout * (1 + attempt))
        if st == 'ok':
            return val
    kind = 'hang' if st == 'timeout' else 'process-died'
    return dict(viol=dict(kind=kind, msg='%s (%r)' % (kind, val)),
                digest=kind, faults={}, cover=[], sim_time=0., events=0,
                trivial=True, known=[], trace=[])


def scenario(mod, prop, seed, i, tier, fixed):
    if i < len(fixed):
        return copy.deepcopy(fixed[i])
    rng = random.Random('%s/%s/%d' % (seed, prop, i - len(fixed)))
    return mod.gen(rng, i - len(fixed), tier)


def worker(mod, prop, seed, tier, fixed, k, nw, total, deadline, known, out):
    """Process runs k, k+nw, ...; results are pickled line by line."""
    with os.fdopen(out, 'wb') as f:
        for i in range(k, total, nw):
            if now() > deadline:
                break
            sc = scenario(mod, prop, seed, i, tier, fixed)
            res = one_run(mod, sc, known)
            res['i'] = i
            sig = hashlib.sha1(json.dumps(sc, sort_keys=True).encode())
            res['sc_sig'] = sig.hexdigest()[:12]
            pickle.dump(res, f)
            f.flush()
            if res['viol'] is not None:
                break


# ------------------------------------------------------------ minimisation
def generic_shrink(sc):
    """Smaller variants: drop list items, shorten, zero numbers."""
    paths = []

    def walk(v, p):
        if isinstance(v, dict):
            for k in sorted(v):
                walk(v[k], p + [k])
        elif isinstance(v, list):
            paths.append((p, 'list', v))
            for j, e in enumerate(v):
                walk(e, p + [j])
        elif isinstance(v, bool):
            if v:
                paths.append((p, 'bool', v))
        elif isinstance(v, int) and v > 1 and p[-1] not in KEEP:
            paths.append((p, 'int', v))
    walk(sc, [])

    def put(p, val):
        new = copy.deepcopy(sc)
        o = new
        for k in p[:-1]:
            o = o[k]
        if val is _DROP:
            del o[p[-1]]
        else:
            o[p[-1]] = val
        return new
    for p, kind, v in paths:
        if kind == 'list' and p and not all(
                isinstance(e, (int, float)) for e in v):
            for j in range(len(v)):
                yield put(p + [j], _DROP)
    for p, kind, v in paths:
        if kind == 'bool':
            yield put(p, False)
        elif kind == 'int' and p and p[-1] != 'seed':
            yield put(p, 1)
            if v > 3:
                yield put(p, v // 2)


_DROP = object()
# Resolutions and counts below which a scenario means nothing.
KEEP = ('n', 'nxi', 'nr', 'marks', 'n_bins', 'ppc')


def minimise(mod, sc, res, known, budget=60.):
    end = now() + budget
    kind = res['viol']['kind']
    tries = 0
    better = True
    while better and now() < end:
        better = False
        for cand in getattr(mod, 'shrink', generic_shrink)(sc):
            if now() > end or tries > 400:
                break
            if not cand.get('bunches', True) or \
                    not getattr(mod, 'valid', bool)(cand):
                continue
            tries += 1
            st, val = in_child(lambda: execute(mod, cand, known), 30.)
            if st == 'ok' and val['viol'] is not None \
                    and val['viol']['kind'] == kind:
                sc, res, better = cand, val, True
                break
    return sc, res, tries


# -------------------------------------------------------------------- main
def check(prop, tier, seed, nw=None, runs=None, evidence=True):
    global SCRATCH
    t0 = now()
    mod = importlib.import_module('sim.props.' + prop.lower())
    known = load_known(prop)
    fixed = list(mod.fixed(tier)) if hasattr(mod, 'fixed') else []
    total = len(fixed) + (runs if runs is not None else mod.RUNS[tier])
    cap = float(os.environ.get('VERIF_CAP', 0)) or \
        (420. if tier == 'quick' else 5400.)
    SCRATCH = tempfile.mkdtemp(prefix='wtsim-%s-' % prop)
    nw = nw or int(os.environ.get('VERIF_WORKERS', 0)) or os.cpu_count() or 4
    nw = max(1, min(nw, total))
    gc.collect()
    gc.freeze()
    results = {}
    try:
        pipes, pids = [], []
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(nw):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for q in pipes:
                        os.close(q)
                    os.close(r)
                    worker(mod, prop, seed, tier, fixed, k, nw, total,
                           t0 + cap, known, w)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                os._exit(code)
            os.close(w)
            pipes.append(r)
            pids.append(pid)
        bufs = {r: b'' for r in pipes}
        openp = list(pipes)
        first = None
        while openp:
            ready, _, _ = select.select(openp, [], [], 1.)
            for r in ready:
                d = os.read(r, 1 << 20)
                if not d:
                    openp.remove(r)
                    continue
                bufs[r] += d
                bufs[r], got = _split(bufs[r])
                for g in got:
                    results[g['i']] = g
                    if g['viol'] is not None and first is None:
                        first = now()
            # Let the other workers finish a little, then stop.
            if first is not None and now() > first + 5.:
                break
        err = False
        if first is not None:
            for pid in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for pid in pids:
            st = os.waitpid(pid, 0)[1]
            err = err or (first is None and st != 0)
        for r in pipes:
            os.close(r)
        if err:
            print('ERROR: a worker of the check failed')
            return 2
        bad = sorted(i for i in results if results[i]['viol'] is not None)
        code = 0
        viol = None
        if bad:
            i = bad[0]
            sc = scenario(mod, prop, seed, i, tier, fixed)
            res = results[i]
            sc2, res2, tries = minimise(mod, sc, res, known)
            path = write_replay(prop, tier, seed, i, sc, sc2, res2, tries)
            viol = res2['viol']
            print('%s: %s' % (viol['kind'], viol['msg']))
            print('seed=%s run=%d minimised in %d attempts' % (seed, i, tries))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            code = 1
        hits = sorted({k for r in results.values() for k in r['known']})
        if code == 0:
            for k in hits:
                print('KNOWN-FINDING: property=%s %s'
                      % (prop, known[k]['what']))
        if evidence:
            write_evidence(mod, prop, tier, seed, results, total, fixed,
                           now() - t0, len(bad), hits, nw)
        n = len(results)
        print('%s %s: %d runs, %d distinct states, %.1f s, %s' % (
            prop, tier, n, len({c for r in results.values()
                                for c in r['cover']}),
            now() - t0, 'VIOLATED' if code else 'held'))
        return code
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _split(buf):
    import io
    out = []
    f = io.BytesIO(buf)
    pos = 0
    while True:
        try:
            out.append(pickle.load(f))
            pos = f.tell()
        except Exception:
            break
    return buf[pos:], out


def write_replay(prop, tier, seed, i, sc0, sc, res, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-run%d.json' % (prop, seed, i))
    json.dump(dict(property=prop, tier=tier, seed=seed, run=i,
                   violation=res['viol'], digest=res['digest'],
                   minimised_in=tries, scenario=sc, original_scenario=sc0,
                   trace=res['trace']), open(path, 'w'), indent=1)
    return path


def replay(path):
    global SCRATCH
    rec = json.load(open(path))
    mod = importlib.import_module('sim.props.' + rec['property'].lower())
    SCRATCH = tempfile.mkdtemp(prefix='wtsim-replay-')
    try:
        res = one_run(mod, rec['scenario'], load_known(rec['property']))
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    v = res['viol']
    same = v is not None and v['kind'] == rec['violation']['kind']
    if v is not None:
        print('%s: %s' % (v['kind'], v['msg']))
        print('trace digest %s (%s)' % (
            res['digest'], 'identical' if res['digest'] == rec['digest']
            else 'different from the recorded one'))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    else:
        print('replay: no violation on this tree')
    return 1 if v is not None else 0 if not same else 1


def write_evidence(mod, prop, tier, seed, results, total, fixed, wall, bad,
                   hits, nw):
    rs = list(results.values())
    faults = {}
    for r in rs:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
    cover = {c for r in rs for c in r['cover']}
    nontriv = {r['sc_sig'] for r in rs if not r['trivial']}
    samples = []
    for i in sorted(results)[:400]:
        if not results[i]['trivial'] and len(samples) < 3:
            samples.append(dict(
                run=i, scenario=scenario(mod, prop, seed, i, tier, fixed),
                faults=results[i]['faults'], digest=results[i]['digest'],
                trace=results[i]['trace'][:12]))
    ev = dict(
        property=prop, tier=tier, seed=int(seed), level=mod.LEVEL,
        coverage=dict(
            evaluations=len(rs), distinct_nontrivial=len(nontriv),
            rule=mod.RULE, samples=samples,
            planned_runs=total, directed_runs=len(fixed),
            seeds_per_hour=round(len(rs) / wall * 3600),
            simulated_seconds=sum(r['sim_time'] for r in rs),
            simulated_events=sum(r['events'] for r in rs),
            faults_injected=faults,
            distinct_states=len(cover),
            distinct_states_measure=getattr(mod, 'MEASURE', ''),
            distinct_executions=len({r['digest'] for r in rs}),
            known_findings_hit=hits,
            real_components=mod.REAL, stub_components=mod.STUB,
            workers=nw),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=bad)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(d, prop + '.json'))


def selftest(props, n, seed):
    """Determinism: the same seeds, different workers; compare digests."""
    global SCRATCH
    bad = 0
    for prop in props:
        mod = importlib.import_module('sim.props.' + prop.lower())
        known = load_known(prop)
        fixed = []
        SCRATCH = tempfile.mkdtemp(prefix='wtsim-self-')
        try:
            out = []
            for i in range(n):
                sc = scenario(mod, prop, seed, i, 'quick', fixed)
                r = one_run(mod, sc, known)
                out.append((r['digest'], r['viol'] and r['viol']['kind']))
            print(prop, hashlib.sha1(repr(out).encode()).hexdigest(),
                  [k for _, k in out if k])
        finally:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    return bad
