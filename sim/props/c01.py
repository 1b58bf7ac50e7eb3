"""C01: every bunch is advanced through exactly the full element length."""
import numpy as np
import scipy.constants as ct

from sim import common, elements as E
from sim.common import Violation, coords

LEVEL = 'exploration'
RUNS = dict(quick=6000, thorough=150000)
RULE = ('One seeded scenario per run: (a) synthetic field-based element with '
        '0-3 bunches (fixed steps or step functions changing along the '
        'element, also longer than it), 0-3 numerical fields with their own '
        'periods, n_out and output-push option; (b) every real element type; '
        '(c) field-free elements against free flight; (d) transfer-map '
        'elements of zero strength or linear quadrupoles, with CSR and '
        'outputs. Lengths include float32 rounding edges. Non-trivial: at '
        'least two pushes or track steps.')
MEASURE = 'global order of pushes, field updates and copies in a run'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['two times closer than 5e-7 of the element duration count as '
               'equal']


def gen(r, i, tier):
    m = r.random()
    if m < 0.01:
        # Only termination is claimed for a destroyed bunch.
        return dict(mode='lost', k=r.randrange(6), value=r.choice(
            ['nan', 'inf', 'zero-step']), bunches=[E.gen_bunch(r, n=3)],
            element=E.gen_element(r, ('blowout', 'fquad', 'apl', 'fblowout',
                                      'cblowout', 'ramp')))
    if m < 0.55:
        sc = common.gen_fe(r)
        if r.random() < 0.25:
            sc['length'] = common.edge_length(r)
        if not sc['bunches'] and r.random() < 0.7:
            return gen(r, i, tier)
        sc['mode'] = 'fe'
        if r.random() < 0.01 and sc['bunches']:
            # Very many steps.
            sc['bunches'] = [dict(b, n=1) for b in sc['bunches'][:1]]
            sc['fields'] = sc['fields'][:1]
            b = sc['bunches'][0]
            b.pop('auto', None)
            b['dt'] = [2, r.randint(1000, 2000) * 2 + 1]
            if r.random() < 0.3:
                b.pop('dt')
                b['auto'] = [[2, r.randint(1000, 2000) * 2 + 1]]
        if r.random() < 0.35:
            for f in sc['fields']:
                for k in 'abcde':
                    f[k] = 0.
            sc['free'] = True
        return sc
    if m < 0.8:
        nb = r.choice([1, 1, 2])
        kinds = E.FIELD_KINDS if nb > 1 else E.ALL_KINDS
        # Slow kernels less often.
        kinds = [k for k in kinds if k != 'qs' or r.random() < 0.3]
        name = E.namer(r)
        els = [E.gen_element(r, kinds, nb, csr=0.15)
               for _ in range(r.choice([1, 1, 2, 3]))]
        for e in els:
            if E.is_tm(e) and r.random() < 0.2:
                e['initial'] = True
        return dict(mode='elem',
                    bunches=[E.gen_bunch(r, name=name(j), n=r.choice(
                        [3, 4])) for j in range(nb)], elements=els)
    e = E.gen_element(r, E.TM_KINDS, csr=0.4)
    if r.random() < 0.2:
        e['initial'] = True
    for k in ('theta', 'k1', 'k2'):
        if k in e:
            e[k] = 0.
    if r.random() < 0.3:
        e = dict(e, kind='quad', k1=round(r.uniform(-15, 15), 3), order=1,
                 csr=False)
    if r.random() < 0.3 and e['n_out']:
        # Outputs whose spacing is close to a multiple of the CSR step.
        e['L'] = e['n_out'] * 0.1 * r.randint(1, 3) * (
            1 + r.choice([0, 0, 1e-12, -1e-12, 1e-9]))
    return dict(mode='tm', elements=[e],
                bunches=[E.gen_bunch(r, n=4, spread=0., species=r.choice(
                    ['electron', 'positron', 'proton']))])


def run(sc, ctx):
    globals()['run_' + sc['mode']](sc, ctx)


def run_fe(sc, ctx):
    order = common.Order()
    el, bunches, fields = common.build_fe(sc, hook=order)
    L, T = common.fe_units(sc)
    before = [(coords(b), b.prop_distance) for b in bunches]
    common.track_list(el, bunches)
    ctx.sim_time += T
    if any(len(b.pushes) > 1 for b in bunches):
        ctx.nontrivial()
    ctx.state(order.seq)
    for b, s, (c0, p0) in zip(bunches, sc['bunches'], before):
        ctx.ev('bunch', s['name'], len(b.pushes), coords(b))
        if abs(b.prop_distance - p0 - L) > 5e-7 * L:
            raise Violation('prop-distance', 'grew by %.12g for a length of '
                            '%.12g' % (b.prop_distance - p0, L))
        step = None if 'auto' in s else float(common.frac(s['dt'])) * T
        common.check_pushes(b, L, step, getattr(b, 'auto_log', None))
        if sc.get('free'):
            free_flight(b, c0, T)


def free_flight(b, c0, T, tol=1e-6):
    x0, p = c0[:3], c0[3:]
    v = ct.c * p / np.sqrt(1 + np.sum(p**2, axis=0))
    dx = v * T
    dx[2] -= ct.c * T
    got = coords(b)
    if np.max(np.abs(got[3:] - p)) > 1e-9 * np.max(np.abs(p)):
        raise Violation('free-momentum', 'momentum changed in zero field')
    err = np.abs(got[:3] - x0 - dx)
    lim = tol * np.abs(dx) + 1e-12 * np.abs(x0) + 1e-10 * ct.c * T
    if np.any(err > lim):
        raise Violation('free-flight', 'displacement %r, expected %r' % (
            (got[:3] - x0).tolist(), dx.tolist()))


def run_elem(sc, ctx):
    import wake_t
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    order = common.Order()
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    for b in bunches:
        b.hook = order
    for e in sc['elements']:
        if not E.usable(bunches):
            break
        el = E.build(e, hook=order, gamma=sc['bunches'][0]['gamma'])
        if not E.is_tm(e):
            common.spy_auto(el, lambda b: E.documented_step(e, b))
        p0 = [b.prop_distance for b in bunches]
        for b in bunches:
            b.pushes, b.auto_log, b.auto_at = [], [], []
            b.auto_now = None if E.is_tm(e) else adaptive(el)
        out = E.track(el, e, bunches, **E.initial(e))
        ctx.sim_time += e['L'] / ct.c
        for j, b in enumerate(bunches):
            ctx.ev(e['kind'], len(b.pushes), coords(b))
            d = b.prop_distance - p0[j]
            if abs(d - e['L']) > 5e-7 * e['L'] + 4e-16 * abs(p0[j]):
                raise Violation('prop-distance', '%s: grew by %.12g for a '
                                'length of %.12g' % (e['kind'], d, e['L']))
            if E.is_tm(e):
                ctx.nontrivial()
                continue
            if len(b.pushes) > 1:
                ctx.nontrivial()
            dt = e['dt'][j] if isinstance(e['dt'], list) else e['dt']
            common.check_pushes(
                b, e['L'], None if dt == 'auto' else dt * e['L'] / ct.c,
                b.auto_log)
        del out
    ctx.state(order.seq)


def adaptive(el):
    f = common.auto_of(el)
    return None if f is None else lambda b: (
        f(b) if np.all(np.isfinite(b.pz)) and np.all(b.pz > 0) else None)


def run_lost(sc, ctx):
    e = sc['element']
    b = E.build_bunch(sc['bunches'][0], common.SimBunch)
    getattr(b, common.COORDS[sc['k']])[0] = float(
        sc['value']) if sc['value'] != 'zero-step' else 1.
    el = E.build(e)
    if sc['value'] == 'zero-step':
        el.dt_bunch = 0.
    ctx.fault('lost-particle')
    ctx.nontrivial()
    ctx.state('lost', sc['k'], sc['value'], e['kind'])
    try:
        el.track([b], show_progress_bar=False)
        ctx.ev('finished')
    except (ValueError, ZeroDivisionError, OverflowError) as x:
        ctx.ev('raised', type(x).__name__)


def run_tm(sc, ctx):
    import wake_t
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    e, bs = sc['elements'][0], sc['bunches'][0]
    b = E.build_bunch(bs)
    b.w = b.w * 1e-6         # negligible CSR kick
    c0, p0 = coords(b), b.prop_distance
    out = E.track(E.build(e, gamma=bs['gamma']), e, [b],
                  **E.initial(e))[0]
    L = e['L']
    ctx.sim_time += L / ct.c
    ctx.nontrivial()
    ctx.state(e['kind'], e['n_out'], bool(e.get('csr')))
    ctx.ev(e['kind'], e['n_out'], coords(b))
    if abs(b.prop_distance - p0 - L) > 5e-7 * L + 4e-16 * abs(p0):
        raise Violation('prop-distance', 'grew by %.12g for a length of '
                        '%.12g' % (b.prop_distance - p0, L))
    g = np.sqrt(1 + np.sum(c0[3:]**2, axis=0))
    gr = bs['gamma'] if e.get('gref') else np.average(g, weights=b.w)
    p_ref = np.sqrt(gr**2 - 1)
    k1 = e.get('k1', 0.) or 0.
    for u, sign in ((0, 1.), (1, -1.)):
        k = sign * k1
        xp = c0[3 + u] / p_ref
        w = np.sqrt(abs(k)) if k else 0.
        if k > 0:
            x = c0[u] * np.cos(w * L) + xp * np.sin(w * L) / w
        elif k < 0:
            x = c0[u] * np.cosh(w * L) + xp * np.sinh(w * L) / w
        else:
            x = c0[u] + xp * L
        got = coords(b)[u]
        # Second-order and energy-deviation terms are far below this.
        lim = 2e-3 * np.max(np.abs(xp)) * L * np.cosh(w * L) + 1e-3 * np.max(
            np.abs(c0[u])) * (np.cosh(w * L) - 0.999)
        if np.any(np.abs(got - x) > lim):
            raise Violation('tm-transport', '%s L=%g n_out=%s csr=%s: %r, '
                            'expected %r' % (
                                e['kind'], L, e['n_out'], e.get('csr'),
                                got.tolist(), x.tolist()))
