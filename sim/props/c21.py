"""C21: reported beam parameters and bunch data describe the particles."""
import os
import sys

import numpy as np
import scipy.constants as ct
import aptools.data_analysis.beam_diagnostics as bd

import wake_t
from wake_t import ParticleBunch
from wake_t.diagnostics import OpenPMDDiagnostics, bunch_analysis as ba
from sim import elements as E
from sim.common import Violation, bunch_state, same_state

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=50000)
RULE = ('One seeded scenario per run: a history of 2-7 operations on one or '
        'two bunches of any species: tracking through a real element of any '
        'type, setting the charge or the whole phase space, moving the '
        'bunch, rebuilding it from each kind of matrix, copying it and '
        'changing the copy, analysing it, a failed or interrupted analysis '
        '(at a random executed line of wake_t). After each operation the '
        'bunch is compared with a plain model of six coordinates and '
        'weights. At the end the list of all snapshots taken (also reversed, '
        'repeated, mixed between bunches) is analysed: each entry of each '
        'parameter has to be what the particles of that snapshot give '
        '(moments computed independently, slices with APtools), equal to the '
        'analysis of the snapshot alone, and nothing may have changed in any '
        'snapshot. Non-trivial: at least two snapshots analysed.')
MEASURE = 'sequence of operations, species and number of snapshots'
REAL = ['wake_t (whole package, kernels as Python)', 'APtools']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['APtools computes slices correctly']

KEYS = {
    'prop_dist', 'theta_x', 'theta_y', 'x_avg', 'y_avg', 'sigma_x', 'sigma_y',
    'sigma_z', 'alpha_x', 'alpha_y', 'beta_x', 'beta_y', 'gamma_x', 'gamma_y',
    'emitt_x', 'emitt_y', 'avg_slice_emitt_x', 'avg_slice_emitt_y', 'avg_ene',
    'rel_ene_spread', 'avg_slice_rel_ene_spread', 'i_peak', 'q_tot'}
OPS = ['track'] * 4 + ['charge', 'matrix', 'new', 'alternative', 'move',
                       'copy', 'views', 'interrupt', 'fail', 'phase', 'dist']


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = [k for k in (E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
             if k != 'qs' or r.random() < 0.1]
    ops = []
    for _ in range(r.randint(2, 7)):
        op = dict(op=r.choice(OPS), b=r.randrange(nb),
                  seed=r.randrange(10 ** 6))
        if op['op'] == 'track':
            op['el'] = E.gen_element(r, kinds, nb, csr=0.1)
        if op['op'] == 'interrupt':
            op['line'] = r.randint(1, 40)
        ops.append(op)
    return dict(bunches=[E.gen_bunch(r, n=r.choice([3, 4, 6, 9, 12]),
                                     name='b%d' % j) for j in range(nb)],
                ops=ops, slices=r.choice([3, 4, 5, 10, 50, None]),
                order=r.choice(['as is', 'reversed', 'repeated', 'shuffled']),
                length=r.choice([0, 0, 3, 5.5, 8, 30]),
                opmd=r.random() < 0.1, seed=r.randrange(10 ** 6))


def interrupted(line, f, *a):
    left = [line]

    def tracer(frame, event, arg):
        if '/wake_t/' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt('simulated')
        return tracer
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return f(*a), False
    except KeyboardInterrupt:
        return None, True
    except ZeroDivisionError:       # (See sliceable.)
        return None, False
    finally:
        sys.settrace(old)


def near(a, b, tol=1e-10, scale=0.):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(
        np.abs(a - b) <= tol * np.maximum(np.abs(b), scale)))


def slicing(sc):
    """Arguments of the analysis that choose the slices."""
    kw = {}
    if sc['slices'] is not None:
        kw['n_slices'] = sc['slices']
    if sc.get('len_slice'):
        kw['len_slice'] = sc['len_slice']
    return kw


def analysis(b, sc):
    return ba.analyze_bunch(b, **slicing(sc))


def views(b, s, what):
    """All ways of getting data out of a bunch agree with its model s."""
    x, y, xi, px, py, pz = s['coords']
    q = s['w'] * s['q']

    def want(name, got, exp, tol=0., scale=0.):
        got = np.asarray(got)
        ok = (np.array_equal(got, exp) if not tol else
              near(got, exp, tol, scale))
        if not ok:
            raise Violation('views', '%s: %s does not hold the particles of '
                            'the bunch' % (what, name))
    want('q', b.q, q, 1e-14)
    want('get_bunch_matrix', b.get_bunch_matrix(),
         np.array([x, y, xi, px, py, pz, q]), 1e-14)
    want('get_6D_matrix', b.get_6D_matrix(),
         np.array([x, px, y, py, xi, pz]))
    want('get_6D_matrix_with_charge', b.get_6D_matrix_with_charge(),
         np.array([x, px, y, py, xi, pz, q]), 1e-14)
    m, g = b.get_alternative_6D_matrix()
    gam = np.sqrt(1 + px**2 + py**2 + pz**2)
    g0 = np.sum(gam * s['w']) / np.sum(s['w'])
    p = np.sqrt(px**2 + py**2 + pz**2)
    want('the reference energy of the alternative matrix', g, g0, 1e-11)
    want('get_alternative_6D_matrix', m[:5],
         np.array([x, px / p, y, py / p, xi]), 1e-10)
    # The energy deviation is divided by the reference energy or momentum.
    d = (gam - g0) / g0
    if not (near(m[5], d, 1e-9, 1e-4) or
            near(m[5], d / np.sqrt(1 - g0**-2), 1e-9, 1e-4)):
        raise Violation('views', '%s: get_alternative_6D_matrix: wrong '
                        'energy deviation' % what)
    bad = same_state(s, bunch_state(b))
    if bad:
        raise Violation('changed', '%s: reading the bunch changed %s' % (
            what, bad))


def reference(s, sc):
    """Beam parameters of a state, from its particles."""
    x, y, xi, px, py, pz = s['coords']
    w = s['w'] / np.sum(s['w'])
    q = s['w'] * s['q']
    g = np.sqrt(1 + px**2 + py**2 + pz**2)

    def avg(a):
        return np.sum(a * w)

    def std(a):
        return np.sqrt(avg((a - avg(a)) ** 2))
    e = avg(g)
    out = dict(prop_dist=s['prop'], theta_x=avg(px) / e, theta_y=avg(py) / e,
               x_avg=avg(x), y_avg=avg(y), sigma_x=std(x), sigma_y=std(y),
               sigma_z=std(xi), avg_ene=e, rel_ene_spread=std(g) / e,
               q_tot=np.sum(q))
    scale = dict(theta_x=avg(abs(px)) / e, theta_y=avg(abs(py)) / e,
                 x_avg=avg(abs(x)), y_avg=avg(abs(y)), sigma_x=max(abs(x)),
                 sigma_y=max(abs(y)), sigma_z=max(abs(xi)), rel_ene_spread=1.)
    sl = dict(dict(n_slices=50), **slicing(sc))
    kw = dict(sl, w=q)
    out['avg_slice_rel_ene_spread'] = bd.relative_rms_slice_energy_spread(
        xi, px, py, pz, **kw)[-1]
    out['avg_slice_emitt_x'] = bd.normalized_transverse_rms_slice_emittance(
        xi, x, px, py, pz, **kw)[-1]
    out['avg_slice_emitt_y'] = bd.normalized_transverse_rms_slice_emittance(
        xi, y, py, px, pz, **kw)[-1]
    out['i_peak'] = bd.peak_current(xi, q, **sl)
    return out, scale


def size(s, plane):
    """Upper bound of an emittance."""
    i = 'xy'.index(plane)
    return np.std(s['coords'][i]) * np.std(s['coords'][3 + i])


def sliceable(b, sc):
    # (APtools cannot average over slices of at most one particle.)
    try:
        reference(bunch_state(b), sc)
    except (ZeroDivisionError, ValueError, IndexError):
        return False
    return True


def check(p, s, sc, what):
    """Parameters p are those of the particles of the state s."""
    ref, scale = reference(s, sc)
    for k, v in ref.items():
        if not np.isfinite(v):
            continue
        if 'emitt' in k:
            # (APtools uses determinants of single precision.)
            if np.isfinite(p[k]) and abs(p[k] - v) > 2e-3 * max(
                    abs(v), size(s, k[-1])):
                raise Violation('parameters', '%s: %s is %.9g, the particles '
                                'give %.9g' % (what, k, p[k], v))
            continue
        if not near(p[k], v, 1e-9, scale.get(k, 0.)):
            raise Violation('parameters', '%s: %s is %.12g, the particles '
                            'give %.12g' % (what, k, p[k], v))
    x, y, xi, px, py, pz = s['coords']
    w = s['w'] / np.sum(s['w'])
    # (Sample and population estimates differ by this factor.)
    bias = 1 / (1 - np.sum(w ** 2))
    for name, u, pu in (('x', x, px), ('y', y, py)):
        def cov(a, b):
            return np.sum(w * (a - np.sum(w * a)) * (b - np.sum(w * b)))
        uu, up, pp = cov(u, u), cov(u, pu), cov(pu, pu)
        det = uu * pp - up ** 2
        tol = 2e-6 * (uu * pp + up ** 2)
        got = p['emitt_' + name] ** 2
        if np.isfinite(got) and not any(
                abs(got - det * f ** 2) <= tol * f ** 2 for f in (1., bias)):
            raise Violation('parameters', '%s: emitt_%s is %.9g, the '
                            'particles give %.9g' % (
                                what, name, p['emitt_' + name],
                                np.sqrt(max(det, 0.)) * bias))
        d = pu / pz
        ud, dd = cov(u, d), cov(d, d)
        det = uu * dd - ud ** 2
        if det < 1e-3 * uu * dd:
            continue            # (Twiss parameters of a line.)
        a, b, g = (p[k + name] for k in ('alpha_', 'beta_', 'gamma_'))
        em = np.sqrt(det)
        ok = any(abs(b - uu / em / f) <= 1e-3 * abs(b) and
                 abs(a + ud / em / f) <= 1e-3 * np.sqrt(uu * dd) / em
                 for f in (1., bias))
        if not ok or not near(b * g, 1 + a * a, 1e-9):
            raise Violation('parameters', '%s: Twiss parameters %s of plane '
                            '%s, the particles give alpha=%.6g beta=%.6g' % (
                                what, (a, b, g), name, -ud / em / bias,
                                uu / em / bias))


def model(s):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v)
            for k, v in s.items()}


def apply(op, b, s, what):
    """Change the bunch and the model in the same way; returns the bunch and
    the tolerance of the comparison."""
    r = np.random.RandomState(op['seed'])
    n = len(s['w'])
    kind = op['op']
    f = r.uniform(0.5, 1.5, n)
    kw = dict(tags=s['tags'], prop_distance=s['prop'], name=s['name'],
              z_injection=s['z_inj'], q_species=s['q'], m_species=s['m'])
    new = s['coords'] * r.uniform(0.9, 1.1, (6, n))
    if kind == 'charge':
        b.q = s['w'] * s['q'] * f
        s['w'] = s['w'] * f
    elif kind == 'matrix':
        x, y, xi, px, py, pz = new
        b.set_bunch_matrix(np.array([x, y, xi, px, py, pz,
                                     s['w'] * s['q'] * f]))
        s['coords'], s['w'] = new, s['w'] * f
    elif kind == 'phase':
        if op['seed'] % 2:
            b.set_phase_space(*[c.copy() for c in new])
        else:
            x, y, xi, px, py, pz = new
            b.set_phase_space_from_matrix(np.array([x, px, y, py, xi, pz]))
        s['coords'] = new
    elif kind == 'new':
        x, y, xi, px, py, pz = new
        b = ParticleBunch(s['w'] * f, bunch_matrix=np.array(
            [x, px, y, py, xi, pz]), **kw)
        s.update(coords=new, w=s['w'] * f, x_ref=0., theta_ref=0.)
    elif kind == 'alternative':
        x, y, xi, px, py, pz = new
        g = np.sqrt(1 + px**2 + py**2 + pz**2)
        p = np.sqrt(px**2 + py**2 + pz**2)
        g0 = r.uniform(0.9, 1.1) * g.mean()
        m = np.array([x, px / p, y, py / p, xi, g / g0 - 1])
        if op['seed'] % 2:
            b.set_phase_space_from_alternative_matrix(m, g0)
        else:
            b = ParticleBunch(s['w'].copy(), bunch_matrix=m,
                              matrix_type='alternative', gamma_ref=g0, **kw)
            s.update(x_ref=0., theta_ref=0.)
        s['coords'] = new
    elif kind == 'move':
        c = r.uniform(-3e-5, 0.)
        b.xi = b.xi.copy()
        b.reposition_xi(c)
        s['coords'][2] += c - np.sum(s['w'] * s['coords'][2]) / np.sum(s['w'])
    elif kind == 'dist':
        d = r.uniform(-1, 1)
        b.increase_prop_distance(d)
        s['prop'] += d
    elif kind == 'copy':
        c = b.copy()
        bad = same_state(s, bunch_state(c))
        if bad:
            raise Violation('copy', '%s: the copy has another %s' % (
                what, bad))
        c.x += 1e-6
        c.pz *= 2.
        c.w *= 3.
        c.prop_distance += 1.
        c.x_ref += 1.
        if c.tags is not None:
            c.tags[:] = -1
    return b


def run(sc, ctx):
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    reset_csr_calculator()
    g = sc['bunches'][0]['gamma']
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    models = [bunch_state(b) for b in bunches]
    lists = [[] for _ in bunches]
    for k, op in enumerate(sc['ops']):
        i = op['b']
        what = 'operation %d (%s)' % (k, op['op'])
        if op['op'] == 'track':
            e = op['el']
            kw = {}
            if sc['opmd']:
                kw['opmd_diag'] = OpenPMDDiagnostics(
                    os.path.join(ctx.tmp(), 'd%d' % k))
            ctx.sim_time += e['L'] / ct.c
            charge = [m['w'] for m in models]
            outs = E.track(E.build(e, gamma=g), e, bunches, **kw)
            for j, o in enumerate(outs):
                lists[j] += o
            models = [bunch_state(b) for b in bunches]
            if not E.usable(bunches):
                break
            for j, m in enumerate(models):
                if not np.array_equal(m['w'], charge[j]):
                    raise Violation('charge', '%s: tracking changed the '
                                    'weights of bunch %d' % (what, j))
        elif op['op'] in ('interrupt', 'fail'):
            b = bunches[i]
            if op['op'] == 'interrupt':
                hit = interrupted(op['line'], analysis, b, sc)[1]
                if hit:
                    ctx.fault('interrupt')
            else:
                ctx.fault('bad-analysis')
                try:
                    ba.analyze_bunch_list([b, None], n_slices=5)
                    raise Violation('accepted', '%s: a list without bunches '
                                    'was analysed' % what)
                except (AttributeError, TypeError, ValueError,
                        ZeroDivisionError):
                    pass
        elif op['op'] == 'views':
            views(bunches[i], models[i], what)
        else:
            bunches[i] = apply(op, bunches[i], models[i], what)
        ctx.fault('op:' + op['op'])
        for j, b in enumerate(bunches):
            s = bunch_state(b)
            scale = np.max(np.abs(models[j]['coords']), axis=1)
            tol = 1e-12 if op['op'] != 'alternative' else 1e-9
            if not (near(s['w'], models[j]['w'], 1e-13) and
                    s['coords'].shape == models[j]['coords'].shape and
                    np.all(np.abs(s['coords'] - models[j]['coords'])
                           <= tol * scale[:, None])):
                raise Violation('model', '%s: bunch %d holds other particles '
                                'than it was given' % (what, j))
            bad = same_state(s, models[j], [k for k in s if k not in (
                'coords', 'w')])
            if bad:
                raise Violation('model', '%s: %s of bunch %d is wrong' % (
                    what, bad, j))
            models[j] = s
        if op['op'] != 'track' and op['seed'] % 3 == 0:
            lists[i].append(bunches[i].copy())
    finish(sc, bunches, models, lists, ctx)


def finish(sc, bunches, models, lists, ctx):
    r = np.random.RandomState(sc['seed'])
    for b, m in zip(bunches, models):
        if E.usable([b]):
            views(b, m, 'at the end')
    snaps = [s for lst in lists for s in lst if E.usable([s])]
    if sc['length'] and snaps:
        sc = dict(sc, len_slice=max(np.ptp(s.xi) for s in snaps) /
                  sc['length'])
    snaps = [s for s in snaps if sliceable(s, sc)]
    if not snaps:
        return
    if sc['order'] == 'reversed':
        snaps = snaps[::-1]
    elif sc['order'] == 'repeated':
        snaps = snaps + snaps[:1]
    elif sc['order'] == 'shuffled':
        snaps = [snaps[i] for i in r.permutation(len(snaps))]
    before = [bunch_state(s) for s in snaps]
    got = ba.analyze_bunch_list(snaps, **slicing(sc))
    alone = [analysis(s, sc) for s in snaps]
    if len(snaps) > 1:
        ctx.nontrivial()
    ctx.state([o['op'] if o['op'] != 'track' else o['el']['kind']
               for o in sc['ops']], sc['bunches'][0]['species'], len(snaps))
    for i, s in enumerate(snaps):
        bad = same_state(before[i], bunch_state(s))
        if bad:
            raise Violation('changed', 'the analysis changed %s of bunch %d '
                            'of the list' % (bad, i))
    for p, who in [(got, 'list')] + [(a, 'single') for a in alone[:1]]:
        if not KEYS <= set(p):
            raise Violation('parameters', '%s: missing %s' % (
                who, sorted(KEYS - set(p))))
    for k in KEYS:
        if np.shape(got[k]) != (len(snaps),):
            raise Violation('list', '%s has shape %s for %d bunches' % (
                k, np.shape(got[k]), len(snaps)))
    for i, s in enumerate(before):
        what = 'bunch %d of %d (%s)' % (i, len(snaps), sc['order'])
        check(alone[i], s, sc, what + ', analysed alone')
        check({k: got[k][i] for k in KEYS}, s, sc, what)
    for k in sorted(KEYS):
        ctx.ev(k, np.asarray(got[k]))
