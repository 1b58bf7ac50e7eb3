"""C06: a beamline is the composition of its elements."""
import copy
import os

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E, h5
from sim.common import Violation, bunch_state, same_state, close_state, coords

LEVEL = 'exploration'
RUNS = dict(quick=4000, thorough=80000)
RULE = ('One seeded scenario per run: (a) 1-5 random elements of all types '
        'tracked element by element by hand and as a (nested) beamline: '
        'outgoing bunches and concatenated outputs bit for bit, propagation '
        'distance against the sum of lengths, reference angle against the '
        'sum of bending angles, reference angle and offset of the bunch and '
        'every output against the plane curve of the bends, with openPMD output the same series of '
        'files; (b) a drift, bend, quadrupole (first order) or static-field '
        'element cut into 2-4 pieces at step boundaries, within rounding. '
        'Non-trivial: at least two elements or pieces.')
MEASURE = 'sequence of element kinds, nesting and cuts'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api/HDF5']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['pieces agree with the whole to 1e-7 of the scale of motion']


def gen(r, i, tier):
    if r.random() < 0.6:
        nb = r.choice([1, 1, 1, 2])
        kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
        if r.random() < 0.9:
            kinds.remove('qs')
        n = r.randint(1, 5)
        els = [E.gen_element(r, kinds, nb, csr=0.12) for _ in range(n)]
        plain = [k for k, e in enumerate(els)
                 if not e.get('csr') and not e.get('laser')]
        if plain and r.random() < 0.3:
            # The same object again, at a random place behind.
            k = r.choice(plain)
            els.insert(r.randint(k + 1, n), copy.deepcopy(els[k]))
            n += 1
        bends = [e for e in els if e.get('theta')]
        if len(bends) > 1 and r.random() < 0.4:
            # (Nearly) back to the first direction.
            bends[1]['theta'] = -bends[0]['theta'] * (
                1 + r.choice([0., 1e-3, -1e-4, 1e-6]))
        cuts = []
        for _ in range(r.choice([0, 1, 1, 2])):
            a = r.randrange(n)
            cuts.append([a, r.randint(a + 1, n)])
        bunches = [E.gen_bunch(r, n=3, name='b%d' % j) for j in range(nb)]
        if r.random() < 0.3:
            bunches[0]['z_inj'] = bunches[0].get('prop', 0.) + \
                r.uniform(0, 1.1) * E.total_length(els)
        return dict(mode='line', bunches=bunches, elements=els, nest=cuts,
                    opmd=r.random() < 0.12, bar=r.random() < 0.2)
    kind = r.choice(['drift', 'drift', 'dipole', 'dipole', 'quad', 'fquad',
                     'apl', 'fblowout', 'fe'])
    e = E.gen_element(r, (kind,), 1, csr=0.)
    n = r.randint(2, 12)
    if E.is_tm(e):
        if kind in ('dipole', 'quad'):
            e['order'] = 1
        e['gref'] = 1.
        if kind == 'quad':
            e['k1'] *= 0.2
        e['n_out'] = r.choice([None, 1])
    else:
        e['dt'] = 1. / n
        e['n_out'] = r.choice([0, 1])
        e['before'] = r.random() < 0.5
        e['ext'] = False
        if 'dens' in e:
            e['dens']['kind'] = 'const'
        for f in e.get('fields', ()):
            f['kind'], f['w'] = 'ana', 0.
    k = r.randint(2, min(4, n))
    marks = sorted(r.sample(range(1, n), k - 1)) + [n]
    b = E.gen_bunch(r, n=3, name='b', outliers=False)
    if r.random() < 0.5 and E.is_tm(e):
        b['theta0'] = r.uniform(-.1, .1)
        b['x0'] = r.uniform(-.01, .01)
    return dict(mode='cut', element=e, n=n, marks=marks, bunches=[b])


def valid(sc):
    if sc['mode'] == 'cut':
        m = [0] + sc['marks']
        return m[-1] == sc['n'] and all(b > a for a, b in zip(m, m[1:]))
    return True


def run(sc, ctx):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    globals()['run_' + sc['mode']](sc, ctx)


def check_orbit(els, b, s, what):
    """Reference angle and offset at path length s along the elements.

    The reference orbit of transfer-matrix elements is the plane curve
    dx/ds = sin(theta), dtheta/ds = bending angle / length.  (Field elements
    are tracked in the laboratory frame, and leave the reference as it is.)
    """
    x = th = 0.
    done = 0.
    for e in els:
        f = min(max((s - done) / e['L'], 0.), 1.)
        done += e['L']
        if not E.is_tm(e):
            continue
        a = e.get('theta', 0.) * f
        x += e['L'] * f * np.sin(th + a / 2) * np.sinc(a / 2 / np.pi)
        th += a
    if abs(b.theta_ref - th) > 1e-6 * sum(
            abs(e.get('theta', 0.)) for e in els) + 1e-12 or \
            abs(b.x_ref - x) > 1e-6 * done:
        raise Violation('reference-orbit', '%s at %.6g m of %s: angle %.12g '
                        'and offset %.12g, on the curve of the bends %.12g '
                        'and %.12g' % (what, s, [e['kind'] for e in els],
                                       b.theta_ref, b.x_ref, th, x))


def run_line(sc, ctx):
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    g = sc['bunches'][0]['gamma']
    # By hand.
    reset_csr_calculator()
    hand = [E.build_bunch(b) for b in sc['bunches']]
    p0 = [b.prop_distance for b in hand]
    flat = []
    els = []
    kw = {}
    if sc['opmd']:
        d1 = os.path.join(ctx.tmp(), 'a')
        d2 = os.path.join(ctx.tmp(), 'b')
        kw = dict(opmd_diag=OpenPMDDiagnostics(d1))
    for e in sc['elements']:
        if not E.usable(hand):
            break
        els.append(e)
        out = E.track(E.build(e, gamma=g), e, hand, **kw)
        flat.extend(out[0] if len(hand) == 1 else out)
        ctx.sim_time += e['L'] / ct.c
    if len(els) > 1:
        ctx.nontrivial()
    total = E.total_length(els)
    for i, b in enumerate(hand):
        d = b.prop_distance - p0[i]
        if abs(d - total) > 1e-6 * total + 1e-15 * abs(p0[i]):
            raise Violation('prop-distance', 'grew by %.12g over elements of '
                            'total length %.12g' % (d, total))
        th = sum(e.get('theta', 0.) for e in els if E.is_tm(e))
        if abs(b.theta_ref - th) > 1e-9:
            raise Violation('reference-angle', '%.12g after bends of total '
                            'angle %.12g' % (b.theta_ref, th))
        check_orbit(els, b, d, 'the bunch')
    if len(hand) == 1:
        for k, o in enumerate(flat):
            check_orbit(els, o, o.prop_distance - p0[0], 'output %d' % k)
    # As a beamline.
    reset_csr_calculator()
    line = [E.build_bunch(b) for b in sc['bunches']]
    objs = []
    for k, e in enumerate(els):
        same = [o for o, x in zip(objs, els) if x == e]
        objs.append(same[0] if same and not e.get('csr') and not e.get(
            'laser') else E.build(e, gamma=g))
    objs = E.nested(objs, sc['nest'])
    kw = dict(show_progress_bar=sc['bar'])
    if sc['opmd']:
        kw.update(opmd_diag=True, diag_dir=d2)
    res = Beamline(objs).track(
        line[0] if len(line) == 1 else line, **kw)
    for i, (a, b) in enumerate(zip(hand, line)):
        ctx.ev(i, coords(b))
        bad = same_state(bunch_state(a), bunch_state(b))
        if bad:
            raise Violation('composition', 'bunch %d leaves the beamline '
                            'different in %s from tracking by hand' % (i, bad))

    def norm(lst):
        out = []
        for o in lst:
            out.extend(o if isinstance(o, list) else [o])
        return out
    x, y = norm(flat), norm(res)
    if len(flat) != len(res) or len(x) != len(y):
        raise Violation('outputs', '%d outputs, by hand %d' % (
            len(res), len(flat)))
    for k, (a, b) in enumerate(zip(x, y)):
        bad = same_state(bunch_state(a), bunch_state(b))
        if bad:
            raise Violation('outputs', 'output %d differs in %s from tracking '
                            'by hand' % (k, bad))
    if sc['opmd']:
        s1, s2 = h5.series(d1), h5.series(d2)
        if sorted(s1) != sorted(s2):
            raise Violation('files', 'beamline wrote files %s, by hand %s' % (
                sorted(s2), sorted(s1)))
        for k in s1:
            a, b = h5.content(s1[k]), h5.content(s2[k])
            if a != b:
                raise Violation('files', 'file %d differs: %s' % (
                    k, [n for n in set(a) | set(b)
                        if a.get(n) != b.get(n)][:5]))
    ctx.state([e['kind'] for e in els], sc['nest'], sc['opmd'])


def run_cut(sc, ctx):
    e, bs = sc['element'], sc['bunches'][0]

    def bunch():
        b = E.build_bunch(bs)
        b.theta_ref = bs.get('theta0', 0.)
        b.x_ref = bs.get('x0', 0.)
        return b
    whole = bunch()
    E.track(E.build(e, gamma=bs['gamma']), e, [whole])
    cut = bunch()
    last = 0
    els = []
    for m in sc['marks']:
        f = (m - last) / sc['n']
        last = m
        part = dict(e, L=e['L'] * f)
        if E.is_tm(e):
            if 'theta' in e:
                part['theta'] = e['theta'] * f
            els.append(E.build(part, gamma=bs['gamma']))
            continue
        # The same physical time step and fields as in the whole element.
        el = E.build(e, gamma=bs['gamma'])
        el.length = part['L']
        els.append(el)
    Beamline(els).track(cut, show_progress_bar=False)
    ctx.nontrivial()
    ctx.sim_time += 2 * e['L'] / ct.c
    ctx.state(e['kind'], sc['n'], sc['marks'])
    ctx.ev(e['kind'], coords(whole))
    if not E.usable([whole]):
        return
    bad = close_state(bunch_state(whole), bunch_state(cut), 1e-2 * e['L'],
                      rtol=1e-7)
    if bad:
        raise Violation('splitting', '%s cut at %s/%d differs from the whole '
                        'in %s' % (e['kind'], sc['marks'], sc['n'], bad))
