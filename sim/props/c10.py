"""C10: storage errors are reported, never swallowed, and do no damage."""
import os

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E, h5
from sim.common import Violation, bunch_state
from sim.disk import disk

LEVEL = 'fault_enumeration'
RUNS = dict(quick=1500, thorough=25000)
RULE = ('One seeded scenario per run: 1-4 elements tracked with one shared '
        'diagnostics object while the storage shim fails file operations '
        '(ENOSPC, EIO, EACCES, EINTR, short writes; one operation, several, '
        'or from one operation on; all operations or only opens, directory '
        'creations or writes). After an error the fault clears and the '
        'element is tracked again from a copy of its incoming bunch. All '
        'completed outputs are read with plain h5py and compared with what '
        'was in memory when they were written. Directed runs put a single '
        'and a lasting error on every operation of a write. Non-trivial: at '
        'least one injected fault was hit.')
MEASURE = 'element kinds, fault kind, duration and operation that was hit'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5',
        'file system']
STUB = ['numba compiler and thread pool', 'wall clock',
        'file-modifying system calls pass through the storage shim']
ASSUMPTIONS = ['no power loss', 'known finding: a lasting error that begins '
               'only while openPMD-api closes a file is swallowed by it']
ERRORS = ('ENOSPC', 'EIO', 'EACCES', 'EINTR', 'SHORT')


def base_bunch():
    return dict(n=3, seed=1, gamma=300., sx=1e-5, sxi=1e-6, xi0=-2e-5,
                div=1e-4, spread=1e-3, w=1e5, species='electron', name='b')


def fixed(tier):
    out = []
    el = dict(kind='drift', L=0.1, n_out=2, order=2, gref=None)
    for kind in (('ENOSPC', 'EIO', 'SHORT') if tier == 'quick' else ERRORS):
        for k in range(1, 50):
            for span in (1, 10**6):
                out.append(dict(bunches=[base_bunch()], elements=[el],
                                faults=[dict(at_op=k, span=span, kind=kind,
                                             arg=9, ops=[])], again=True))
    return out


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = list(E.EXT_KINDS) + ['fluid']
    if nb == 1:
        kinds += list(E.TM_KINDS)
    n = r.randint(1, 4)
    els = [E.gen_element(r, kinds, nb, csr=0.05) for _ in range(n)]
    for e in els:
        e['n_out'] = r.choice([1, 2, 2, 3, 4])
        if e['kind'] == 'fluid':
            e.pop('laser', None)
    faults = []
    for _ in els:
        if r.random() < 0.25:
            faults.append(None)
            continue
        faults.append(dict(
            at=r.random(), span=r.choice([1, 1, 1, 2, 3, 5, 10**6]),
            kind=r.choice(ERRORS), arg=r.choice([0, 1, 9, 100]),
            ops=r.choice([[], [], ['open'], ['pwrite', 'write'],
                          ['mkdir'], ['close'], ['ftruncate']])))
    return dict(bunches=[E.gen_bunch(r, n=r.choice([3, 40]), name='b%d' % j,
                                     outliers=False) for j in range(nb)],
                elements=els, faults=faults, again=r.random() < 0.8)


class Ledger:
    """What was in memory whenever a write completed."""

    def __init__(self):
        self.entries = []
        self.z_done = 0.
        self.failed = 0
        self.start = None            # length of the disk log at write start
        orig = self.orig = OpenPMDDiagnostics.write_diagnostics
        me = self

        def write(self, *a, **k):
            args = dict(zip(('time', 'dt', 'species_list', 'fields'), a))
            args.update(k)
            sp = [bunch_state(b) for b in args.get('species_list') or []]
            n0 = len(disk().log())
            try:
                orig(self, *a, **k)
            except BaseException:
                me.failed += 1
                raise
            me.entries.append(dict(
                z=me.z_done + args['time'] * ct.c, species=sp,
                log=(n0, len(disk().log()))))
        OpenPMDDiagnostics.write_diagnostics = write

    def close(self):
        OpenPMDDiagnostics.write_diagnostics = self.orig


def closing(log):
    """Index in `log` (one write) at which closing the file begins: the first
    write that goes back in the file after the initial superblock."""
    last = None
    seen = 0
    for i, o in enumerate(log):
        if o['op'] in ('pwrite', 'write') and o['off'] >= 0:
            seen += 1
            if seen > 1 and last is not None and o['off'] < last:
                return i
            last = o['off']
    return len(log)


def classify(log):
    """'close' if the first error hit the file while it was being closed."""
    first = next((i for i, o in enumerate(log)
                  if o['fault'] not in (None, 'SHORT')), None)
    if first is None:
        return 'none'
    return 'close' if first >= closing(log) else 'write'


def dry(sc, folder, g):
    """File operations per element without faults."""
    d = disk()
    out = []
    diag = OpenPMDDiagnostics(folder)
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    for e in sc['elements']:
        if not E.usable(bunches):
            break
        d.watch(folder)
        E.track(E.build(e, gamma=g), e, bunches, opmd_diag=diag)
        out.append(d.nops)
        d.stop()
    return out


def run(sc, ctx):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    g = sc['bunches'][0]['gamma']
    nops = dry(sc, os.path.join(ctx.tmp(), 'dry'), g)
    folder = os.path.join(ctx.tmp(), 'run', 'diags')
    os.makedirs(os.path.dirname(folder))
    led = Ledger()
    try:
        go(sc, ctx, folder, g, nops, led)
    finally:
        led.close()
        disk().stop()


def go(sc, ctx, folder, g, nops, led):
    d = disk()
    diag = OpenPMDDiagnostics(folder)
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    bad_files = set()
    for k, n in enumerate(nops):
        e = sc['elements'][k]
        fault = sc['faults'][k] if k < len(sc['faults']) else None
        entry = [b.copy() for b in bunches]
        d.watch(os.path.dirname(folder))
        if fault is not None:
            at = fault.get('at_op') or 1 + int(fault['at'] * n)
            d.plan(at, at + fault['span'] - 1, fault['kind'], fault['arg'],
                   fault['ops'])
        n0 = len(led.entries)
        err = None
        try:
            E.track(E.build(e, gamma=g), e, bunches, opmd_diag=diag)
        except E.Unphysical:
            raise
        except Exception as x:
            # Leave the handler, so that what the failed call held is let go.
            err = x.with_traceback(None)
        log = d.log()
        d.clear()
        hits = [o for o in log if o['fault']]
        for o in hits[:1]:
            ctx.fault('%s:%s' % (o['fault'], o['op']), len(hits))
            ctx.nontrivial()
        label = '%s (element %d, fault %s at %s)' % (
            e['kind'], k, fault and fault['kind'],
            hits[0]['op'] if hits else 'no operation')
        ctx.ev(label, type(err).__name__, len(led.entries) - n0)
        ctx.state(e['kind'], fault and (fault['kind'], fault['span'] > 99),
                  [(i, o['op']) for i, o in enumerate(log) if o['fault']][:1])
        if err is not None and not hits:
            raise err
        if err is None:
            want = E.n_outputs(e)
            if len(led.entries) - n0 != want:
                raise Violation('swallowed', '%s: tracking succeeded with %d '
                                'of %d outputs' % (
                                    label, len(led.entries) - n0, want))
        # Every completed output can be read and is right.
        check(folder, led, bad_files, log, n0, label, ctx)
        led.z_done += 0. if err is not None else e['L']
        if err is not None:
            if not sc['again']:
                break
            bunches = [b.copy() for b in entry]
            n0 = len(led.entries)
            E.track(E.build(e, gamma=g), e, bunches, opmd_diag=diag)
            if len(led.entries) - n0 != E.n_outputs(e):
                raise Violation('retry', '%s: %d outputs after the fault '
                                'cleared' % (label, len(led.entries) - n0))
            check(folder, led, bad_files, [], n0, label + ', retried', ctx)
            led.z_done += e['L']
        d.stop()
        ctx.sim_time += e['L'] / ct.c
    if sc['again'] and len(sc['elements']) == len(nops):
        files = sorted(h5.series(folder))
        if files != list(range(len(led.entries))):
            raise Violation('numbering', '%d outputs completed, files %s' % (
                len(led.entries), files))


def check(folder, led, bad_files, log, n0, label, ctx):
    try:
        files = h5.series(folder)
    except ValueError as x:
        raise Violation('stray-file', '%s: %s' % (label, x))
    for i, ent in enumerate(led.entries):
        if i in bad_files:
            continue
        why = None
        try:
            if i not in files:
                raise OSError('missing')
            f = h5.File(files[i])
            why = wrong(f, i, ent)
        except Exception as x:
            why = 'cannot be read (%s)' % x
        if why is None:
            continue
        if i >= n0 and log:
            part = log[ent['log'][0]:ent['log'][1]]
            if classify(part) == 'close' and ctx.known(
                    'error-while-closing-file-swallowed'):
                bad_files.add(i)
                ctx.fault('known:close-error-swallowed')
                continue
        raise Violation('swallowed' if i >= n0 else 'damaged',
                        '%s: output %d was reported as written, but %s'
                        % (label, i, why))


def wrong(f, i, ent):
    if f.index != i:
        return 'holds iteration %d' % f.index
    if abs(f.time * ct.c - ent['z']) > 1e-9 * abs(ent['z']) + 1e-15:
        return 'has time*c = %.12g instead of %.12g' % (f.time * ct.c,
                                                       ent['z'])
    if sorted(f.species) != sorted(s['name'] for s in ent['species']):
        return 'has species %s' % sorted(f.species)
    for s in ent['species']:
        got = f.species[s['name']]
        p = s['m'] * ct.c
        for k, v in zip(('x', 'y', 'z', 'px', 'py', 'pz', 'weighting'),
                        list(s['coords'] * np.array(
                            [[1], [1], [1], [p], [p], [p]])) + [s['w']]):
            if not np.allclose(got[k], v, rtol=1e-12, atol=0.,
                               equal_nan=True):
                return 'has other %s of %s' % (k, s['name'])
    return None
