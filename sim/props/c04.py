"""C04: outputs are complete, evenly spaced and taken at the right moment."""
import scipy.constants as ct

import wake_t
from sim import common, elements as E
from sim.common import (Violation, bunch_state, close_state, coord_error,
                        coords, same_state)

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=120000)
RULE = ('One seeded scenario per run: (a) synthetic field elements: number, '
        'positions and contents of the snapshots of every bunch against the '
        'sequential model, including outputs coinciding with pushes and '
        'updates; (b) the same with output pushes off, re-run with other '
        'numbers of outputs: the outgoing bunch must be bit-identical; '
        '(c) every real element type: count, positions, first and last '
        'snapshot; (d) transfer-map elements: snapshot k equals the bunch '
        'leaving an element cut after k output intervals. Non-trivial: at '
        'least two snapshots.')
MEASURE = 'global order of pushes, field updates and copies in a run'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['positions agree to 5e-7 of the element length',
               'contents agree to 1e-7 of the scale of the motion']


def gen(r, i, tier):
    m = r.random()
    if m < 0.4:
        sc = common.gen_fe(r)
        if not sc['bunches']:
            return gen(r, i, tier)
        sc['n_out'] = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 13, 24])
        if r.random() < 0.2:
            sc['length'] = common.edge_length(r)
        sc['mode'] = 'fe'
        return sc
    if m < 0.55:
        sc = common.gen_fe(r)
        if not sc['bunches']:
            return gen(r, i, tier)
        sc['push_before'] = False
        sc['mode'] = 'neutral'
        sc['other'] = [r.choice([0, 1, 2, 3, 4, 6, 9, 17]) for _ in range(2)]
        return sc
    if m < 0.75:
        nb = r.choice([1, 1, 2])
        kinds = E.FIELD_KINDS if nb > 1 else E.ALL_KINDS
        kinds = [k for k in kinds if k != 'qs' or r.random() < 0.3]
        name = E.namer(r)
        return dict(mode='elem', element=E.gen_element(r, kinds, nb, csr=.1),
                    bunches=[E.gen_bunch(r, n=3, name=name(j))
                             for j in range(nb)])
    e = E.gen_element(r, E.TM_KINDS, csr=0.1)
    e['n_out'] = r.choice([None, 1, 2, 3, 4, 5, 7, 11])
    e['gref'] = 1.
    return dict(mode='tm', element=e, bunches=[E.gen_bunch(r, n=3)],
                initial=r.random() < 0.3)


def run(sc, ctx):
    globals()['run_' + sc['mode']](sc, ctx)


def positions(out, p0, L, n_out, exact, steps, what):
    """Check number and positions of the snapshots of one bunch.
    steps: longest step (fraction of the element) for the lagging case."""
    want = n_out + 1 if n_out > 0 else 0
    if len(out) != want:
        raise Violation('count', '%s: %d snapshots for n_out=%d' % (
            what, len(out), n_out))
    for k, s in enumerate(out):
        pos = (s.prop_distance - p0) / L
        exp = k / n_out
        tol = 5e-7 + 1e-15 * abs(p0) / L
        if k in (0, n_out) or exact:
            ok = abs(pos - exp) < tol
        else:
            ok = exp - steps - tol < pos < exp + tol
        if not ok:
            raise Violation('position', '%s: snapshot %d at %.9g L, expected '
                            '%.9g L' % (what, k, pos, exp))


def ends(out, first, b, what):
    """First snapshot = incoming bunch, last = outgoing bunch."""
    bad = same_state(first, bunch_state(out[0]))
    if bad:
        raise Violation('first', '%s: first snapshot differs from the '
                        'incoming bunch in %s' % (what, bad))
    bad = same_state(bunch_state(b), bunch_state(out[-1]))
    if bad:
        raise Violation('last', '%s: last snapshot differs from the outgoing '
                        'bunch in %s' % (what, bad))


def run_fe(sc, ctx):
    order = common.Order()
    el, bunches, fields = common.build_fe(sc, hook=order)
    L, T = common.fe_units(sc)
    first = [bunch_state(b) for b in bunches]
    out = common.track_list(el, bunches)
    ctx.sim_time += T
    ctx.state(order.seq)
    ref = common.run_ref(sc)
    if len(out) != len(bunches):
        raise Violation('count', '%d output lists for %d bunches' % (
            len(out), len(bunches)))
    for i, b in enumerate(bunches):
        s = sc['bunches'][i]
        step = max([common.frac(v) for v in s['auto']] if 'auto' in s
                   else [common.frac(s['dt'])])
        what = 'bunch %d' % i
        ctx.ev(what, len(out[i]), coords(b))
        positions(out[i], first[i]['prop'], L, sc['n_out'],
                  sc['push_before'], float(step), what)
        if not out[i]:
            continue
        if len(out[i]) > 1:
            ctx.nontrivial()
        ends(out[i], first[i], b, what)
        if ref.ambiguous or any(x.edge for x in ref.bunches):
            continue
        for k, (snap, (rs, _)) in enumerate(zip(out[i], ref.snapshots[i])):
            err = coord_error(coords(snap), rs.X, L)
            if not err < 1e-7:
                raise Violation('content', 'bunch %d snapshot %d differs from '
                                'the model by %.2e' % (i, k, err))


def run_neutral(sc, ctx):
    states = []
    for n in [sc['n_out']] + sc['other']:
        order = common.Order()
        el, bunches, _ = common.build_fe(sc, hook=order, n_out=n)
        out = common.track_list(el, bunches)
        states.append([bunch_state(b) for b in bunches])
        ctx.state(order.seq)
        if any(len(o) > 1 for o in out):
            ctx.nontrivial()
    L, T = common.fe_units(sc)
    ctx.sim_time += 3 * T
    for st, n in zip(states[1:], sc['other']):
        for i, (a, b) in enumerate(zip(states[0], st)):
            ctx.ev(i, a['coords'])
            bad = same_state(a, b)
            if bad:
                raise Violation('not-neutral', 'bunch %d differs in %s '
                                'between n_out=%d and %d although bunches '
                                'are not pushed for outputs' % (
                                    i, bad, sc['n_out'], n))


def run_elem(sc, ctx):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    e = sc['element']
    order = common.Order()
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    for b in bunches:
        b.hook = order
    el = E.build(e, gamma=sc['bunches'][0]['gamma'])
    first = [bunch_state(b) for b in bunches]
    out = E.track(el, e, bunches)
    ctx.sim_time += e['L'] / ct.c
    ctx.state(e['kind'], order.seq)
    for i, b in enumerate(bunches):
        what = '%s bunch %d' % (e['kind'], i)
        ctx.ev(what, len(out[i]), coords(b))
        if E.is_tm(e):
            tm_positions(e, out[i], first[i]['prop'], what)
            if out[i]:
                ctx.nontrivial()
                last(out[i], b, what)
            continue
        dt = e['dt'][i] if isinstance(e['dt'], list) else e['dt']
        step = max(b2 for _, b2 in b.pushes) / (e['L'] / ct.c) \
            if dt == 'auto' else dt
        positions(out[i], first[i]['prop'], e['L'], e['n_out'],
                  e.get('before', True), step, what)
        if out[i]:
            ctx.nontrivial()
            ends(out[i], first[i], b, what)


def tm_positions(e, out, p0, what):
    n = e['n_out'] or 0
    if len(out) != n:
        raise Violation('count', '%s: %d snapshots for n_out=%s' % (
            what, len(out), e['n_out']))
    for k, s in enumerate(out):
        pos = (s.prop_distance - p0) / e['L']
        if abs(pos - (k + 1) / n) > 5e-7 + 1e-15 * abs(p0) / e['L']:
            raise Violation('position', '%s: snapshot %d at %.9g L, expected '
                            '%.9g L' % (what, k, pos, (k + 1) / n))


def last(out, b, what):
    bad = same_state(bunch_state(b), bunch_state(out[-1]))
    if bad:
        raise Violation('last', '%s: last snapshot differs from the outgoing '
                        'bunch in %s' % (what, bad))


def run_tm(sc, ctx):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    e, bs = sc['element'], sc['bunches'][0]
    n, L = e['n_out'], e['L']
    if e.get('csr'):
        # The CSR kick itself depends on the trajectory sampling; make it
        # negligible here, what counts is where the outputs are.
        bs = dict(bs, w=1.)
    b = E.build_bunch(bs)
    first = bunch_state(b)
    out = E.build(e, gamma=bs['gamma']).track(
        b, show_progress_bar=False, out_initial=sc['initial'])
    ctx.sim_time += L / ct.c
    ctx.nontrivial()
    ctx.state(e['kind'], n, bool(e.get('csr')), sc['initial'])
    ctx.ev(e['kind'], len(out), coords(b))
    if sc['initial']:
        bad = same_state(first, bunch_state(out[0]))
        if bad:
            raise Violation('first', 'initial output differs from the '
                            'incoming bunch in %s' % bad)
        out = out[1:]
    what = e['kind']
    tm_positions(e, out, first['prop'], what)
    if not n:
        # The initial output must not be taken for the final one.
        c = E.build_bunch(bs)
        E.build(e, gamma=bs['gamma']).track(c, show_progress_bar=False)
        if not e.get('csr'):
            last([c], b, what + ' without initial output')
        return
    last(out, b, what)
    for k in range(1, n):
        cut = dict(e, L=L * k / n, n_out=k)
        if 'theta' in e:
            cut['theta'] = e['theta'] * k / n
        c = E.build_bunch(bs)
        # Start from a clean CSR trajectory.
        from wake_t.physics_models.collective_effects.csr import \
            get_csr_calculator
        get_csr_calculator().clear()
        E.track(E.build(cut, gamma=bs['gamma']), cut, [c])
        bad = close_state(bunch_state(out[k-1]), bunch_state(c),
                          1e-2 * L, rtol=1e-6)
        if bad:
            raise Violation('content', '%s: output %d of %d differs from the '
                            'bunch leaving an element cut there: %s' % (
                                what, k, n, bad))
