"""C17: observing a run does not change it, and runs are reproducible."""
import contextlib
import hashlib
import io
import json
import os
import random
import subprocess

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.diagnostics.bunch_analysis import (
    analyze_bunch, analyze_bunch_list)
from sim import boot, common, elements as E, kernels
from sim.clock import CLOCK
from sim.common import Violation, bunch_state, same_state

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=50000)
RULE = ('One seeded scenario per run: one or two bunches cross 1-3 real '
        'elements of any type (one by one or as a beamline), first '
        'unobserved, then 2-3 times with a random combination of written '
        'output, progress bar, initial output, wall clock that stands still, '
        'jumps ahead or backwards (at random reads), another number of '
        'threads, another state of the random generators (both numpy and '
        'random), beam analysis of bunches and snapshots, and heap garbage. '
        'All snapshots and final bunches have to be bit for bit those of the '
        'unobserved run; random state, working directory, environment and numpy error settings are compared before '
        'and after. Another variant changes the number of outputs where this '
        'must not matter. Directed runs repeat a batch of scenarios in new '
        'interpreters with other hash seeds. Non-trivial: at least one '
        'variant compared.')
MEASURE = 'sequence of element kinds and the observation options'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5',
        'tqdm']
STUB = ['numba compiler and thread pool (thread setting simulated)',
        'wall clock', 'random-generator seeds']
ASSUMPTIONS = ['same numerical libraries in all runs']


def gen(r, i, tier):
    nb = r.choice([1, 1, 1, 2])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.85:
        kinds.remove('qs')
    els = [E.gen_element(r, kinds, nb, csr=0.2)
           for _ in range(r.choice([1, 1, 2, 3]))]
    bunches = [E.gen_bunch(r, n=r.choice([3, 4, 6]), name='b%d' % j)
               for j in range(nb)]
    variants = []
    for _ in range(r.choice([2, 2, 3])):
        v = {}
        if r.random() < 0.5:
            v['opmd'] = r.choice(['object', 'flag'])
        if r.random() < 0.5:
            v['bar'] = True
        if r.random() < 0.5:
            v['clock'] = [r.choice([0., 1e-6, 0.1, 10., -0.5]),
                          [[r.randint(1, 40), r.choice([-1e6, -3., 5., 1e9])]
                           for _ in range(r.randint(0, 3))]]
        if r.random() < 0.4:
            v['threads'] = r.randint(1, 8)
        if r.random() < 0.5:
            v['random'] = r.randrange(10 ** 6)
        if r.random() < 0.2:
            v['cwd'] = True
        if r.random() < 0.3:
            v['analysis'] = True
        variants.append(v)
    sc = dict(elements=els, bunches=bunches, variants=variants,
              beamline=nb == 1 and r.random() < 0.25)
    if r.random() < 0.4:
        for e in els:
            if E.is_tm(e):
                e['order'] = 1
                e.pop('csr', None)
            elif 'before' in e:
                e['before'] = False
        els = [e for e in els if E.is_tm(e) or not e.get('before', True)]
        if els:
            sc['elements'] = els
            sc['outs'] = [r.choice([None, 1, 2, 3, 5, 9]) if E.is_tm(e) else
                          r.choice([0, 1, 2, 3, 7, 10]) for e in els]
    return sc


def fixed(tier):
    out = []
    for k, h in enumerate([0, 1, 42, 31337]):
        out.append(dict(hash=h, batch=[1 + k, 40 if tier == 'quick' else 120]))
    return out


def process_state():
    s = np.random.get_state()
    return {
        'numpy random generator': (s[0], s[1].tobytes(), s[2:]),
        'random generator': random.getstate(),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'numpy error settings': np.geterr(),
    }


def execute(sc, v, folder, n_outs=None):
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    reset_csr_calculator()
    g = sc['bunches'][0]['gamma']
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    objs = [E.build(e, gamma=g, n_out='spec' if n_outs is None else n)
            for e, n in zip(sc['elements'],
                            n_outs or [None] * len(sc['elements']))]
    kw = dict(show_progress_bar=bool(v.get('bar')))
    if v.get('opmd') == 'flag':
        kw.update(opmd_diag=True, diag_dir=folder)
    elif v.get('opmd'):
        kw.update(opmd_diag=OpenPMDDiagnostics(folder))
    snaps = []
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
        if sc['beamline']:
            with E.guard(sc['elements'], sc['bunches'], bunches, g):
                out = Beamline(objs).track(bunches[0], **kw)
            look(v, out)
            snaps += [bunch_state(s) for s in out]
        else:
            for el, e in zip(objs, sc['elements']):
                if not E.usable(bunches):
                    break
                look(v, bunches)
                for o in E.track(el, e, bunches, **kw):
                    look(v, o)
                    snaps += [bunch_state(s) for s in o]
    return snaps, [bunch_state(b) for b in bunches]


def look(v, bunches):
    """Analyse bunches, if the variant says so."""
    if not v.get('analysis'):
        return
    for b in bunches:
        with np.errstate(all='ignore'):
            for f in (lambda: analyze_bunch(b, n_slices=5),
                      lambda: analyze_bunch_list([b, b], n_slices=3),
                      b.get_6D_matrix, b.get_6D_matrix_with_charge,
                      b.get_bunch_matrix, b.get_alternative_6D_matrix,
                      b.copy, lambda: b.q,
                      lambda: b.get_openpmd_diagnostics_data(0.)):
                try:
                    f()
                except (ArithmeticError, ValueError, IndexError,
                        np.linalg.LinAlgError):
                    pass        # (lost bunches and the like)


def observed(sc, v, folder, n_outs=None):
    """execute() under the conditions of a variant."""
    clock = v.get('clock', [1e-4, []])
    CLOCK.configure(clock[0], [tuple(j) for j in clock[1]])
    np.random.seed(v.get('random', 0))
    random.seed(v.get('random', 0))
    kernels.POOL.n = v.get('threads', 1)
    here = os.getcwd()
    garbage = [bytearray(b'\xa5' * 997) for _ in range(v.get('random', 0)
                                                       % 50)]
    del garbage
    os.makedirs(folder, exist_ok=True)
    if v.get('cwd'):
        os.chdir(folder)
    try:
        before = process_state()
        res = execute(sc, v, os.path.join(folder, 'diags'), n_outs)
        after = process_state()
    finally:
        os.chdir(here)
        threads = kernels.POOL.n
        kernels.POOL.n = kernels.POOL.maximum
        CLOCK.configure()
    for k in before:
        if before[k] != after[k]:
            raise Violation('process', 'tracking changed the %s' % k)
    if threads != v.get('threads', 1):
        raise Violation('process', 'tracking changed the number of threads')
    return res


def run(sc, ctx):
    if 'hash' in sc:
        return run_hash(sc, ctx)
    d = ctx.tmp()
    base = observed(sc, {}, os.path.join(d, 'base'))
    kinds = [e['kind'] for e in sc['elements']]
    ctx.sim_time += E.total_length(sc['elements']) / ct.c
    ctx.ev(kinds, *[s['coords'] for s in base[1]])
    for k, v in enumerate(sc['variants']):
        got = observed(sc, v, os.path.join(d, 'v%d' % k))
        for j in v.get('clock', [0, []])[1]:
            ctx.fault('clock-jump:' + ('back' if j[1] < 0 else 'ahead'))
        for name in v:
            ctx.fault('observe:' + name)
        ctx.nontrivial()
        compare(base, got, 'with %s' % json.dumps(v))
        ctx.state(kinds, sorted(v))
    if sc.get('outs'):
        got = observed(sc, {}, os.path.join(d, 'n'), sc['outs'])
        ctx.fault('observe:n_out')
        exact = not any(E.is_tm(e) for e in sc['elements'])
        for b, (x, y) in enumerate(zip(base[1], got[1])):
            bad = same_state(x, y) if exact else close(x, y, sc)
            if bad:
                raise Violation('outputs', 'n_out %s instead of %s changes '
                                '%s of the outgoing bunch %d' % (
                                    sc['outs'], [e['n_out'] for e in
                                                 sc['elements']], bad, b))


def close(x, y, sc):
    if not np.all(np.isfinite(x['coords'])):
        return []
    return common.close_state(x, y, E.total_length(sc['elements']), 1e-8)


def compare(a, b, what):
    if len(a[0]) != len(b[0]):
        raise Violation('observed', '%s: %d snapshots, unobserved %d' % (
            what, len(b[0]), len(a[0])))
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        bad = same_state(x, y)
        if bad:
            raise Violation('observed', '%s: %s of snapshot %d changed' % (
                what, bad, i))
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        bad = same_state(x, y)
        if bad:
            raise Violation('observed', '%s: %s of bunch %d changed' % (
                what, bad, i))


def digest_batch(seed, n):
    """Digest of the outcome of the first n scenarios (used by a new
    interpreter)."""
    import tempfile
    h = hashlib.sha1()
    with tempfile.TemporaryDirectory(prefix='wtsim-h-') as d:
        for i in range(n):
            sc = gen(random.Random('hash/%d/%d' % (seed, i)), i, 'quick')
            try:
                snaps, final = observed(sc, {}, os.path.join(d, str(i)))
                for s in snaps + final:
                    h.update(common.digest_state(s).encode())
            except Exception as x:
                h.update(type(x).__name__.encode())
            h.update(b'|')
            print(i, h.hexdigest())
    return 0


def run_hash(sc, ctx):
    outs = []
    for seed in ('0', str(sc['hash']) if sc['hash'] else '7'):
        env = dict(os.environ, VERIF_HASHSEED=seed)
        for k in ('WAKET_SIM', 'LD_PRELOAD'):
            env.pop(k, None)
        p = subprocess.run(
            [boot.PYTHON, os.path.join(boot.VERIF, 'check.py'), 'batch17',
             str(sc['batch'][0]), str(sc['batch'][1])], env=env,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600,
            cwd=boot.VERIF)
        if p.returncode != 0:
            raise RuntimeError('batch failed with %d' % p.returncode)
        outs.append(p.stdout)
    ctx.nontrivial()
    ctx.fault('hash-seed')
    ctx.ev('batch', outs[0].decode())
    if outs[0] != outs[1]:
        k = next(i for i, (a, b) in enumerate(zip(
            outs[0].splitlines(), outs[1].splitlines())) if a != b)
        raise Violation('hash-seed', 'scenario %d of batch %d gives another '
                        'result in another process' % (k, sc['batch'][0]))
