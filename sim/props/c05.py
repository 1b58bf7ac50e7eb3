"""C05: snapshots and copies are independent and complete enough to resume."""
import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import ParticleBunch
from sim import common, elements as E
from sim.common import Violation, bunch_state, same_state, coords

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('One seeded scenario per run: one or two bunches cross 1-4 real '
        'elements of any type. At every element boundary the simulator may '
        'lose the live bunch: tracking continues from a copy of it, from its '
        'last snapshot or from an earlier-taken copy, and everything that is '
        'no longer needed (the dead bunch and a random subset of the '
        'snapshots) is overwritten in place with garbage. All held snapshots '
        'are re-read after every later step, and the final bunches are '
        'compared bit for bit with an undisturbed run. Non-trivial: at least '
        'one loss.')
MEASURE = 'sequence of element kinds and of boundary faults'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['element objects are new in both runs (reuse is C07)']


def gen(r, i, tier):
    nb = r.choice([1, 1, 1, 2])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.9:
        kinds.remove('qs')
    n = r.randint(1, 4)
    els = [E.gen_element(r, kinds, nb, csr=0.1) for _ in range(n)]
    if nb == 1 and r.random() < 0.5:
        # Reference angle and offset matter after a bend only.
        els.insert(r.randint(0, len(els)),
                   E.gen_element(r, ('dipole', 'tm'), nb, csr=0.2))
    name = E.namer(r)
    bunches = [E.gen_bunch(r, n=r.choice([3, 4, 6]), name=name(j))
               for j in range(nb)]
    for b in bunches:
        if r.random() < 0.3:
            b['z_inj'] = b.get('prop', 0.) + r.uniform(-0.1, 1.2) * \
                E.total_length(els)
            if r.random() < 0.3:
                b['z_inj'] = 0.
    for e in els:
        if E.is_tm(e) and r.random() < 0.3:
            e['initial'] = True
    cuts = [r.choice(['live', 'copy', 'last', 'last', 'early', 'matrix:' +
                      r.choice(['coords', '6d', 'all', 'charge', 'new'])])
            for _ in els]
    return dict(bunches=bunches, elements=els, cuts=cuts,
                poison=r.randrange(2 ** 30))


def poison(b, rng):
    """Overwrite everything reachable from a bunch, in place."""
    for c in common.COORDS + ('w',):
        a = getattr(b, c)
        a[:] = rng.choice([np.nan, 0., 1e30, -3.3])
    if b.tags is not None:
        b.tags[:] = -1
    b.prop_distance = -17.
    b.x_ref, b.theta_ref = 5., 1.
    b.z_injection = 1e9


def rebuilt(d, way):
    """A bunch rebuilt from what the bunch d exports."""
    b = d.copy()
    if way == 'new':
        b = ParticleBunch(d.w.copy(), bunch_matrix=d.get_6D_matrix(),
                          tags=b.tags, prop_distance=d.prop_distance,
                          z_injection=d.z_injection, name=d.name,
                          q_species=d.q_species, m_species=d.m_species)
        b.x_ref, b.theta_ref = d.x_ref, d.theta_ref
        return b
    # Whatever the copy holds is replaced.
    b.set_phase_space(*np.full((6, len(d.w)), 1e-7))
    if way == '6d':
        b.set_phase_space_from_matrix(d.get_6D_matrix())
    elif way == 'charge':
        m = d.get_6D_matrix_with_charge()
        b.set_phase_space_from_matrix(m[:6])
        check_charge(m[6], d)
    elif way == 'all':
        b.w = b.w * 2
        m = d.get_bunch_matrix()
        check_charge(m[6], d)
        b.set_bunch_matrix(m)
        check_charge(b.q, d)
        b.w = b.w * 2
        b.q = m[6]
        check_charge(b.q, d)
        check_charge(b.w * b.q_species, d)
        b.w = d.w.copy()      # a product and a quotient: only to rounding
    else:
        b.set_phase_space(*[getattr(d, c).copy() for c in common.COORDS])
    return b


def check_alternative(d):
    """The matrix of angles and relative energies holds the same bunch. (Its
    energies are relative to the momentum, those of the constructor to the
    energy.)"""
    m, g = d.get_alternative_6D_matrix()
    gam = np.sqrt(1 + np.sum(coords(d)[3:]**2, axis=0))
    if not abs(g - np.sum(d.w * gam) / np.sum(d.w)) <= 1e-9 * g:
        raise Violation('alternative', 'reference energy %r' % g)
    b = ParticleBunch(d.w.copy(), bunch_matrix=m.copy(), gamma_ref=g,
                      matrix_type='alternative', name='alt')
    want, got = coords(d), coords(b)
    beta = np.sqrt(1 - 1 / g**2)
    lim = 1e-9 + 4 * np.max(np.abs(gam / g - 1)) * (1 / beta - 1)
    for k in range(6):
        s = np.max(np.abs(want[k])) if k < 3 else np.max(gam)
        if not np.max(np.abs(want[k] - got[k])) <= (
                1e-12 * s if k < 3 else 4 * lim * s):
            raise Violation('alternative', 'coordinate %d becomes %s, was %s'
                            % (k, got[k][:3], want[k][:3]))


def check_charge(q, d):
    want = d.w * d.q_species
    if not np.all(np.abs(q - want) <= 1e-14 * np.abs(want)):
        raise Violation('charge', 'exported charges %s, expected %s' % (
            q[:3], want[:3]))


def run(sc, ctx):
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    g = sc['bunches'][0]['gamma']

    # Undisturbed run.
    reset_csr_calculator()
    ref = [E.build_bunch(b) for b in sc['bunches']]
    ref_out = []
    for e in sc['elements']:
        if not E.usable(ref):
            break
        out = E.track(E.build(e, gamma=g), e, ref, **E.initial(e))
        ref_out.append([[bunch_state(s) for s in o] for o in out])
        ctx.sim_time += e['L'] / ct.c
    ref = [bunch_state(b) for b in ref]

    # Run with losses.
    reset_csr_calculator()
    rng = np.random.RandomState(sc['poison'])
    live = [E.build_bunch(b) for b in sc['bunches']]
    held = []             # (snapshot, state when taken, label)

    def check_held(when):
        for s, st, label in held:
            bad = same_state(st, bunch_state(s))
            if bad:
                raise Violation('snapshot-changed', '%s changed in %s %s' % (
                    label, bad, when))
    for k, e in enumerate(sc['elements'][:len(ref_out)]):
        early = [b.copy() for b in live]
        estate = [bunch_state(b) for b in early]
        out = E.track(E.build(e, gamma=g), e, live, **E.initial(e))
        for i, o in enumerate(out):
            want = ref_out[k][i]
            if len(o) != len(want):
                raise Violation('count', 'element %d: %d snapshots, '
                                'undisturbed run %d' % (k, len(o), len(want)))
            for j, s in enumerate(o):
                bad = same_state(want[j], bunch_state(s))
                if bad:
                    raise Violation('resume', 'element %d (%s) bunch %d '
                                    'snapshot %d differs in %s from the '
                                    'undisturbed run' % (k, e['kind'], i, j,
                                                         bad))
                held.append((s, bunch_state(s), 'snapshot %d of bunch %d in '
                             'element %d (%s)' % (j, i, k, e['kind'])))
        for i, (b, st) in enumerate(zip(early, estate)):
            held.append((b, st, 'copy of bunch %d before element %d (%s)' % (
                i, k, e['kind'])))
        check_held('while tracking element %d (%s)' % (k, e['kind']))
        cut = sc['cuts'][k % len(sc['cuts'])] if sc['cuts'] else 'live'
        cut, _, way = cut.partition(':')
        if cut == 'last' and (not all(out) or not e['n_out']):
            cut = 'copy'
        ctx.ev(k, e['kind'], cut, *[coords(b) for b in live])
        if cut == 'live':
            continue
        ctx.fault('live-bunch-lost:' + cut)
        ctx.nontrivial()
        dead = live
        if cut == 'copy':
            live = [b.copy() for b in dead]
        elif cut == 'last':
            live = [o[-1].copy() if len(sc['cuts']) > k + 1 and
                    sc['cuts'][k + 1] == 'copy' else o[-1] for o in out]
            # A snapshot that becomes the live bunch may change from now on.
            held = [h for h in held if not any(h[0] is b for b in live)]
        elif cut == 'early':
            # Back to the copy taken before the element: track it again.
            live = [b for b in early]
            held = [h for h in held if not any(h[0] is b for b in live)]
            if e.get('csr') or e.get('laser'):
                # Sharing of CSR and laser state is intended: keep the dead
                # run's result.
                live = [b.copy() for b in dead]
            else:
                E.track(E.build(e, gamma=g), e, live)
        elif cut == 'matrix':
            live = [rebuilt(d, way) for d in dead]
            if E.usable(dead):
                for d in dead:
                    check_alternative(d)
        for b in dead:
            if not any(b is x for x in live):
                poison(b, rng)
        check_held('after overwriting the dead bunch')
        # Overwrite some snapshots: the others must not care.
        keep = []
        for h in held:
            if rng.rand() < 0.25 and not any(h[0] is b for b in live):
                poison(h[0], rng)
                ctx.fault('snapshot-overwritten')
            else:
                keep.append(h)
        held = keep
        check_held('after overwriting other snapshots')
    for i, b in enumerate(live):
        bad = same_state(ref[i], bunch_state(b))
        if bad:
            raise Violation('resume', 'final bunch %d differs in %s from the '
                            'undisturbed run' % (i, bad))
    ctx.state([e['kind'] for e in sc['elements']], sc['cuts'])
