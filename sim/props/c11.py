"""C11: results do not depend on thread scheduling or thread count."""
import numpy as np
import scipy.constants as ct

import wake_t
from sim import common, elements as E, kernels
from sim.common import Violation, bunch_state

LEVEL = 'exploration'
RUNS = dict(quick=1200, thorough=20000)
RULE = ('One seeded scenario per run: 1-3 elements with their bunches, '
        'tracked once with every parallel loop executed in order and then '
        'two to four times on simulated threads (2-9 threads; equal, ragged '
        'or cyclic partition of the iterations; preemption before any store '
        'to an array with probability 0.02-0.9). Final bunches, snapshots '
        'and grid fields of every update are compared. Non-trivial: at '
        'least one preemption was taken.')
MEASURE = 'hash of the schedule (which thread runs after which store)'
REAL = ['wake_t (whole package; kernels as Python, transformed so that every '
        'array store inside a parallel loop is a scheduling point)']
STUB = ['numba compiler and thread pool (simulated threads)', 'wall clock']
ASSUMPTIONS = ['code between two array stores of one thread is atomic',
               'memory is sequentially consistent',
               'results may differ in the last digits (1e-11 of the largest '
               'value), as a parallel reduction would']


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = list(E.EXT_KINDS) + ['fluid', 'apl_wf']
    if r.random() < 0.3:
        kinds = ['fluid', 'qs', 'apl_wf']
    if nb == 1 and r.random() < 0.1:
        kinds = list(E.TM_KINDS)
    els = [E.gen_element(r, kinds, nb, csr=0.2)
           for _ in range(r.choice([1, 1, 2, 3]))]
    for e in els:
        if e['kind'] == 'qs':
            e['grid'].update(nxi=8, nr=6, ppc=1)
            e['n_out'] = min(e['n_out'], 1)
        if 'dzf' in e:
            e['dzf'] = max(e['dzf'], 0.4)
    n = r.choice([2, 3, 4, 6, 9, 14, 20])
    if any(e.get('csr') for e in els):
        n = max(n, 3)
    return dict(bunches=[E.gen_bunch(r, n=n if j == 0 else r.choice([1, 2, 5]),
                                     name='b%d' % j) for j in range(nb)],
                elements=els,
                threads=[dict(seed=r.randrange(2**31), n=r.randint(2, 9),
                              p=r.choice([0.02, 0.1, 0.3, 0.6, 0.9]),
                              chunk=r.choice(['static', 'static', 'ragged',
                                              'cyclic']))
                         for _ in range(r.choice([2, 3, 4]))])


def shrink(sc):
    for i in range(len(sc['threads'])):
        if len(sc['threads']) > 1:
            yield dict(sc, threads=[sc['threads'][i]])
    for i, t in enumerate(sc['threads']):
        for k, v in (('n', 2), ('chunk', 'static'), ('p', 0.02), ('p', 0.1)):
            if t[k] != v:
                ts = list(sc['threads'])
                ts[i] = dict(t, **{k: v})
                yield dict(sc, threads=ts)


def grid_fields(el, grid, n=4):
    """E and B of the fields of an element on some grid nodes."""
    from sim.props.c08 import nodal_fields
    out = []
    for f in getattr(el, 'fields', None) or []:
        v = nodal_fields(f, grid)
        if v is not None:
            out.append(v)
    return out


def once(sc, g, ctx=None):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    reset_csr_calculator()
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    res = []
    for k, e in enumerate(sc['elements']):
        if not E.usable(bunches):
            break
        el = E.build(e, gamma=g)
        out = E.track(el, e, bunches)
        for j, o in enumerate(out):
            for s, b in enumerate(o):
                res.append(('element %d (%s), bunch %d, output %d' % (
                    k, e['kind'], j, s), bunch_state(b)['coords']))
        for j, b in enumerate(bunches):
            res.append(('element %d (%s), bunch %d' % (k, e['kind'], j),
                        bunch_state(b)['coords']))
        for f in grid_fields(el, e.get('grid')):
            res.append(('element %d (%s), fields' % (k, e['kind']), f))
        if ctx is not None:
            ctx.sim_time += e['L'] / ct.c
    return res


def differ(a, b):
    """Largest deviation relative to the largest value of the same row."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    a, b = a.reshape(a.shape[0], -1), b.reshape(b.shape[0], -1)
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return np.inf
    s = np.max(np.abs(a), axis=1, initial=0., where=np.isfinite(a))
    d = np.max(np.abs(a - b), axis=1, initial=0., where=np.isfinite(a))
    return float(np.max(np.where(d > 0, d / np.where(s > 0, s, 1e-300), 0.)))


def run(sc, ctx):
    g = sc['bunches'][0]['gamma']
    ref = once(sc, g, ctx)
    for t in sc['threads']:
        kernels.STATS.reset()
        kernels.POOL.n = max(1, min(kernels.POOL.maximum, t['n']))
        kernels.set_mode(kernels.ThreadMode(t['seed'], t['n'], t['p'],
                                            t['chunk']))
        try:
            got = once(sc, g)
        finally:
            kernels.set_mode(None)
        st = kernels.STATS
        ctx.ev('threads', t['n'], st.loops, st.switches, st.sched_hash)
        ctx.state(st.sched_hash)
        ctx.fault('preemption', st.switches)
        ctx.fault('partition:' + t['chunk'], st.loops)
        for u in st.untransformed:
            ctx.ev('not transformed', u)
        if st.switches:
            ctx.nontrivial()
        if len(got) != len(ref):
            raise Violation('threads', '%d results instead of %d' % (
                len(got), len(ref)))
        for (label, a), (_, b) in zip(ref, got):
            d = differ(a, b)
            if d > 1e-11:
                raise Violation(
                    'threads', '%s depends on the schedule (%d threads, %s '
                    'partition): relative deviation %.3g; kernels on threads:'
                    ' %s' % (label, t['n'], t['chunk'], d,
                             ', '.join(sorted(st.kernels))))
