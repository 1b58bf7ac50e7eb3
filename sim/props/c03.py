"""C03: bunches and fields interact in the right order of simulated time."""
import numpy as np
import scipy.constants as ct

from sim import common, elements as E
from sim.common import Violation, coord_error, coords

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=120000)
RULE = ('One seeded scenario per run, executed by the real tracker and by an '
        'independent sequential discrete-event model with exact rational '
        'event times: (a) synthetic fields whose state depends on all '
        'bunches, the time, the update count and the field before them '
        'in the list, with time-dependent '
        'gathering, 0-3 bunches with fixed or position-dependent adaptive '
        'steps; (b) all real field elements and wakefield models, driven by '
        'the model through their public update/gather interface. Compared: '
        'every snapshot and the outgoing bunches. Non-trivial: at least two '
        'pushes in a non-zero field.')
MEASURE = 'global order of pushes, field updates and copies in a run'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['events closer than 1e-6 of their time but not equal give no '
               'verdict (the code resolves times to about 1e-7)',
               'agreement to 1e-7 (quasistatic model 1e-6) of the scale of the motion']


def gen(r, i, tier):
    if r.random() < 0.7:
        sc = common.gen_fe(r)
        if not sc['bunches'] or not sc['fields']:
            return gen(r, i, tier)
        sc['mode'] = 'fe'
        if r.random() < 0.5:
            # One field depends on the one before it in the list.
            sc['couple'] = [r.choice([0, 0, 1])]
        return sc
    nb = r.choice([1, 1, 2])
    kinds = [k for k in E.FIELD_KINDS if k != 'fe']
    kinds = [k for k in kinds if k != 'qs' or r.random() < 0.3]
    e = E.gen_element(r, kinds, nb)
    name = E.namer(r)
    bs = [E.gen_bunch(r, name=name(j), n=r.choice([1, 2, 3]))
          for j in range(nb)]
    for b in bs:
        if r.random() < 0.1:
            b['z_inj'] = b.get('prop', 0.) + round(e['L'] * r.uniform(
                -.1, 1.2), 9)
    return dict(mode='real', element=e, bunches=bs)


def documented(e):
    """Reference fields of elements with a documented formula."""
    if e['kind'] in E.EXT_KINDS and 'grid' not in e:
        return [E.ReferenceField(e)]


def run(sc, ctx):
    globals()['run_' + sc['mode']](sc, ctx)


def compare(ctx, bunches, out, ref, L, tol):
    if ref.ambiguous or any(b.edge for b in ref.bunches):
        ctx.ev('ambiguous')
        return
    if any(sum(1 for e in ref.events if e[1] == 'bunch' and e[2] == i) > 1
           for i in range(len(bunches))):
        ctx.nontrivial()
    for i, (b, rb) in enumerate(zip(bunches, ref.bunches)):
        err = coord_error(coords(b), rb.X, L)
        ctx.ev('bunch', i, coords(b))
        if not err < tol:
            raise Violation('phase-space', 'outgoing bunch %d differs from '
                            'the sequential model by %.2e' % (i, err))
        if len(out[i]) != len(ref.snapshots[i]):
            raise Violation('snapshots', 'bunch %d: %d snapshots, model %d'
                            % (i, len(out[i]), len(ref.snapshots[i])))
        for k, (s, (rs, _)) in enumerate(zip(out[i], ref.snapshots[i])):
            err = coord_error(coords(s), rs.X, L)
            if not err < tol:
                raise Violation('snapshot-state', 'snapshot %d of bunch %d '
                                'differs from the model by %.2e'
                                % (k, i, err))


def run_fe(sc, ctx):
    order = common.Order()
    el, bunches, fields = common.build_fe(sc, hook=order)
    L, T = common.fe_units(sc)
    out = common.track_list(el, bunches)
    ref = common.run_ref(sc)
    ctx.sim_time += T
    ctx.state(order.seq)
    compare(ctx, bunches, out, ref, L, 1e-7)


def run_real(sc, ctx):
    e = sc['element']
    dts = e['dt'] if isinstance(e['dt'], list) else \
        [e['dt']] * len(sc['bunches'])
    order = common.Order()
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    for b in bunches:
        b.hook = order
    out = E.track(E.build(e), e, bunches)
    before = e.get('before', True)
    ref = common.real_ref(
        E.build(e), e['L'], sc['bunches'],
        [E.bunch_arrays(b) for b in sc['bunches']], dts, e['n_out'],
        e['pusher'], before, documented(e))
    ctx.sim_time += e['L'] / ct.c
    ctx.state(e['kind'], order.seq)
    if not all(np.all(np.isfinite(b.X)) for b in ref.bunches):
        ctx.ev('not finite')
        return
    scale = max(e['L'] * 1e-2, 1e-5)
    compare(ctx, bunches, out, ref, scale, 1e-6 if e['kind'] == 'qs'
            else 1e-7)
