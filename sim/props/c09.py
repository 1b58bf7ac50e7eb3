"""C09: outputs already written survive a crash at any later moment."""
import os
import shutil

import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E, h5
from sim.common import Violation
from sim.disk import disk, CRASH_CODE
from sim.runner import in_child

LEVEL = 'fault_enumeration'
RUNS = dict(quick=700, thorough=12000)
RULE = ('One seeded scenario per run: a beamline of 1-3 elements writing 2-8 '
        'outputs runs in a child process that is killed (a) before, in the '
        'middle of (torn) or after a chosen file operation, or (b) at a '
        'chosen push, field update or copy between outputs; possibly again '
        'during the second attempt. The parent then reads the folder with '
        'plain h5py: every output acknowledged before the crash must equal '
        'that of a crash-free run, at most the one in flight may be '
        'incomplete; a new run into the same folder must produce the full '
        'series. Directed runs enumerate every file operation of a run with '
        'each crash kind. Non-trivial: at least one output was acknowledged '
        'before a crash.')
MEASURE = 'element kinds, crash kind and operation at which the crash hit'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5',
        'file system (tmpfs or disk of the sandbox)']
STUB = ['numba compiler and thread pool', 'wall clock',
        'file-modifying system calls pass through the storage shim']
ASSUMPTIONS = ['process crash: data handed to the kernel survives (no power '
               'loss; neither Wake-T nor openPMD-api calls fsync)']
KINDS = ('CRASH_BEFORE', 'CRASH_TORN', 'CRASH_AFTER')


def small(kind, r=None):
    import random
    r = r or random.Random(kind)
    e = E.gen_element(r, (kind,), 1, csr=0.)
    e['n_out'] = 2
    if not E.is_tm(e):
        e['dt'] = 0.5
    return e


def fixed(tier):
    out = []
    kinds = [('drift',), ('fquad',)] if tier == 'quick' else [
        ('drift',), ('fquad',), ('fluid',), ('dipole', 'blowout'),
        ('fe', 'drift')]
    for ks in kinds:
        for ck in KINDS:
            out.append(dict(
                enumerate=True, crash_kind=ck, elements=[small(k) for k in ks],
                bunches=[dict(n=3, seed=1, gamma=300., sx=1e-5, sxi=1e-6,
                              xi0=-2e-5, div=1e-4, spread=1e-3, w=1e5,
                              species='electron', name='b')],
                nest=[], way='beamline', crashes=[]))
    return out


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = list(E.EXT_KINDS) + ['fluid']
    if nb == 1:
        kinds += list(E.TM_KINDS)
    n = r.randint(1, 3)
    els = [E.gen_element(r, kinds, nb, csr=0.05) for _ in range(n)]
    for e in els:
        e['n_out'] = r.choice([1, 2, 2, 3])
        e.pop('laser', None) if e['kind'] == 'fluid' else None
    if sum(E.n_outputs(e) for e in els) < 2:
        els[0]['n_out'] = 3
    crashes = []
    for _ in range(r.choice([2, 3]) if tier == 'quick' else 4):
        c = []
        for _ in range(r.choice([1, 1, 1, 2])):
            if r.random() < 0.75:
                c.append(dict(type='disk', at=r.random(), kind=r.choice(
                    KINDS), arg=r.choice([1, 7, 100, 1000, 3000])))
            else:
                c.append(dict(type='seam', at=r.random()))
        crashes.append(c)
    cuts = [[0, r.randint(1, n)]] if r.random() < 0.3 else []
    return dict(bunches=[E.gen_bunch(r, n=3, name='b%d' % j)
                         for j in range(nb)],
                elements=els, nest=cuts, way=r.choice(['beamline', 'object']),
                crashes=crashes)


class Seam:
    """Counts pushes, updates and copies; kills the process at one."""

    def __init__(self, at=None):
        self.n, self.at = 0, at

    def __call__(self, kind, obj):
        self.n += 1
        if self.n == self.at:
            os._exit(CRASH_CODE)


def simulate(sc, folder, ack, plan=None, seam_at=None):
    """One process lifetime; returns (file operations, seam events)."""
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    orig = OpenPMDDiagnostics.write_diagnostics
    fd = os.open(ack, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def write(self, *a, **k):
        orig(self, *a, **k)
        os.write(fd, b'x')
    OpenPMDDiagnostics.write_diagnostics = write
    seam = Seam(seam_at)
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    for b in bunches:
        b.hook = seam
    objs = [E.build(e, hook=seam, gamma=sc['bunches'][0]['gamma'])
            for e in sc['elements']]
    line = Beamline(E.nested(objs, sc['nest']))
    d = disk()
    d.watch(folder)
    if plan is not None:
        d.plan(plan[0], plan[0], plan[1], plan[2])
    arg = bunches[0] if len(bunches) == 1 else bunches
    kw = dict(opmd_diag=True, diag_dir=folder)
    if sc['way'] == 'object':
        kw = dict(opmd_diag=OpenPMDDiagnostics(folder))
    try:
        with E.guard(sc['elements'], sc['bunches'], bunches,
                     sc['bunches'][0]['gamma']):
            line.track(arg, show_progress_bar=False, **kw)
    except E.Unphysical:
        return None
    n = d.nops
    d.stop()
    return n, seam.n, [(o['op'], o['name']) for o in d.log()]


def read(folder):
    try:
        files = h5.series(folder)
    except ValueError as x:
        raise Violation('stray-file', str(x))
    return {k: h5.try_content(p) for k, p in files.items()}


def compare_all(got, ref, what):
    if sorted(got) != sorted(ref):
        raise Violation('recovery', '%s: files %s, crash-free run %s' % (
            what, sorted(got), sorted(ref)))
    for k in ref:
        if got[k] is None:
            raise Violation('recovery', '%s: file %d unreadable' % (what, k))
        if got[k] != ref[k]:
            raise Violation('recovery', '%s: file %d differs from the '
                            'crash-free run' % (what, k))


def run(sc, ctx):
    base = ctx.tmp()
    d0 = os.path.join(base, 'ref')
    st, val = in_child(lambda: simulate(sc, d0, os.path.join(base, 'ack0')),
                       100.)
    if st != 'ok':
        raise Violation('reference', 'the crash-free run fails')
    if val is None:
        raise E.Unphysical()
    nops, nseam, log = val
    ref = read(d0)
    n_ref = os.path.getsize(os.path.join(base, 'ack0'))
    want = sum(E.n_outputs(e) for e in sc['elements'])
    if n_ref != want or any(v is None for v in ref.values()) or \
            sorted(ref) != list(range(want)):
        raise Violation('reference', 'crash-free run: %d writes completed, '
                        'files %s, %d outputs expected' % (
                            n_ref, sorted(ref), want))
    if nops < 3 * want:
        raise Violation('harness', 'storage shim saw only %d operations'
                        % nops)
    length = E.total_length(sc['elements'])
    ctx.sim_time += length / ct.c
    kinds = [e['kind'] for e in sc['elements']]
    if sc.get('enumerate'):
        plans = [[dict(type='op', at=k, kind=sc['crash_kind'], arg=64)]
                 for k in range(1, nops + 1)]
    else:
        plans = sc['crashes']
    for c, attempts in enumerate(plans):
        folder = os.path.join(base, 'c%d' % c)
        for a, cr in enumerate(attempts):
            ack = os.path.join(base, 'ack-%d-%d' % (c, a))
            before = read(folder)
            plan = seam = None
            if cr['type'] == 'seam':
                if nseam == 0:
                    continue
                seam = 1 + int(cr['at'] * nseam)
                label = 'seam'
            else:
                at = cr['at'] if cr['type'] == 'op' else \
                    1 + int(cr['at'] * nops)
                plan = (at, cr['kind'], cr['arg'])
                label = cr['kind']
            st, val = in_child(
                lambda: simulate(sc, folder, ack, plan, seam), 100.)
            acks = os.path.getsize(ack) if os.path.exists(ack) else 0
            got = read(folder)
            ctx.ev(c, a, label, acks, sorted(got))
            ctx.state(kinds, label, plan[0] if plan else seam)
            ctx.sim_time += length / ct.c
            if st == 'died':
                if os.waitstatus_to_exitcode(val) != CRASH_CODE:
                    raise Violation('crash', 'run with %s at %r ended with '
                                    'status %r' % (label, plan or seam, val))
                ctx.fault('crash:' + label)
                if acks > 0:
                    ctx.nontrivial()
            else:
                ctx.fault('crash-not-reached')
            what = 'crash %s at %s' % (
                label, plan[0] if plan else 'event %d' % seam)
            for k in range(acks):
                if k not in got:
                    raise Violation('lost', '%s: completed output %d is gone'
                                    % (what, k))
                if got[k] is None:
                    raise Violation('lost', '%s: completed output %d cannot '
                                    'be read' % (what, k))
                if got[k] != ref[k]:
                    raise Violation('changed', '%s: completed output %d '
                                    'differs from the crash-free run' % (
                                        what, k))
            for k in got:
                if k > acks and (k not in before or before[k] != got[k]):
                    raise Violation('in-flight', '%s: file %d exists although '
                                    'only %d outputs were completed' % (
                                        what, k, acks))
        # Recovery: run again into the same folder.
        st, val = in_child(lambda: simulate(
            sc, folder, os.path.join(base, 'ack-r%d' % c)), 100.)
        if st != 'ok':
            raise Violation('recovery', 'running again into the folder of a '
                            'crashed run fails (%s, %s)' % (st, val))
        compare_all(read(folder), ref, 'rerun after %s' % attempts)
        shutil.rmtree(folder, ignore_errors=True)
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base, exist_ok=True)
