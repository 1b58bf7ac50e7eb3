"""C18: bunches tracked together do not disturb each other in external
fields."""
import numpy as np
import scipy.constants as ct

from sim import common, elements as E
from sim.common import Violation, bunch_state, same_state, SimField

LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=60000)
RULE = ('One seeded scenario per run: 2-4 bunches with their own species, '
        'size, energy, injection position, propagation distance and fixed or '
        'adaptive step cross 1-2 elements whose fields do not depend on them '
        '(analytical and blowout fields, lenses, ramps, synthetic numerical '
        'fields that depend on time only, or laser-driven wakefields with '
        'bunches of zero charge), together, in a permuted list, and each of '
        'them alone. Faults: one of the bunches is lost (non-finite '
        'coordinates), far outside, or has an extreme step. Every snapshot '
        'and the final state of each bunch must be bit for bit that of the '
        'bunch alone, at its place in the list. Non-trivial: two or more '
        'bunches compared.')
MEASURE = 'element kinds, steps of the bunches, list order, fault'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock',
        'time-dependent numerical field (public NumericalField interface)']
ASSUMPTIONS = ['the fields do not depend on the bunches']
KINDS = ('fquad', 'apl', 'fe', 'fe', 'blowout', 'fblowout', 'cblowout',
         'ramp')


class TimeField(SimField):
    """Numerical field that depends on time and its own updates only."""

    def _calculate_field(self, bunches):
        super()._calculate_field(bunches)
        t, n, s = self.t, self.n_since_start - 1, self.s
        self.coef = (s['b'] * np.cos(3. * t / self.T),
                     s['c'] + s['d'] * np.sin(1. + n),
                     s['e'] * (1 + 0.1 * np.sin(2. * t / self.T)))


def gen(r, i, tier):
    nb = r.choice([2, 2, 3, 4])
    kinds = list(KINDS)
    charge = r.random() < 0.85
    if not charge:
        kinds = ['fluid', 'fluid', 'qs'] if r.random() < 0.3 else ['fluid']
    els = []
    for _ in range(r.choice([1, 1, 2])):
        e = E.gen_element(r, kinds, nb)
        if e['kind'] in ('fluid', 'qs') and r.random() < 0.7:
            e.setdefault('laser', E.gen_laser(r))
            e.setdefault('evol', r.random() < 0.8)
        if e.get('wf') == 'cold_fluid_1d':
            e['wf'] = 'focusing_blowout'
            e.pop('grid', None)
        if e['kind'] == 'qs':
            e['grid'].update(nxi=8, nr=6, ppc=1)
        els.append(e)
    L = E.total_length(els)
    bunches = []
    name = E.namer(r)
    for j in range(nb):
        b = E.gen_bunch(r, n=r.choice([1, 2, 3, 5]), name=name(j))
        if r.random() < 0.2:
            b['z_inj'] = b.get('prop', 0.) + r.uniform(-0.2, 1.3) * L
        if r.random() < 0.1:
            b['name'] = 'same'
        if not charge:
            b['w'] = 0
        bunches.append(b)
    order = list(range(nb))
    r.shuffle(order)
    fault = r.choice([None, None, 'lost', 'far', 'step'])
    victim = r.randrange(nb)
    for e in els:
        d = e['dt'] if isinstance(e['dt'], list) else [e['dt']] * nb
        d = (d * nb)[:nb]
        if r.random() < 0.6:
            auto = e['kind'] != 'fe'
            d = [E.gen_steps(r, e['L'], 1, auto) for _ in range(nb)]
        if fault == 'lost' and d[victim] == 'auto':
            d[victim] = 0.3
        if fault == 'step':
            d[victim] = r.choice([0.013, 0.047, 5., 100.])
        e['dt'] = d
    if fault == 'lost' and not charge:
        fault = None
    return dict(elements=els, bunches=bunches, order=order, fault=fault,
                victim=victim)


def build(e, g):
    """Element without numerical fields that look at the bunches."""
    el = E.build(e, gamma=g)
    if e['kind'] == 'fe':
        T = e['L'] / ct.c
        el.fields = [TimeField(f.s, T, f.dt_update, f.force_even_updates)
                     if isinstance(f, SimField) else f for f in el.fields]
    return el


def together(sc, idx):
    """Track the bunches with the given indices; per bunch the list of
    snapshot states and final states."""
    g = sc['bunches'][0]['gamma']
    bunches = []
    for j in idx:
        b = E.build_bunch(sc['bunches'][j])
        if j == sc['victim'] and sc['fault'] == 'lost':
            b.x[0] = np.nan
            b.pz[-1] = np.inf
        elif j == sc['victim'] and sc['fault'] == 'far':
            b.xi[:] += 3e-3
            b.y[:] *= 1e3
        bunches.append(b)
    res = [[] for _ in idx]
    alive = [True]*len(idx)
    for k, e in enumerate(sc['elements']):
        part = dict(e, dt=[e['dt'][j] for j in idx])
        el = build(part, g)
        for n, j in enumerate(idx):
            if not (E.usable([bunches[n]]) or
                    (sc['fault'] == 'lost' and j == sc['victim'])):
                alive[n] = False
        if not all(alive):
            break
        out = el.track(list(bunches), show_progress_bar=False)
        if len(bunches) == 1:
            out = [out]
        if len(out) != len(bunches):
            raise Violation('shape', 'element %d (%s): %d lists of outputs '
                            'for %d bunches' % (k, e['kind'], len(out),
                                                len(bunches)))
        for n, b in enumerate(bunches):
            res[n] += [('snapshot of element %d (%s)' % (k, e['kind']),
                        bunch_state(s)) for s in out[n]]
            res[n].append(('after element %d (%s)' % (k, e['kind']),
                           bunch_state(b)))
    return res


def run(sc, ctx):
    nb = len(sc['bunches'])
    if any(not isinstance(e['dt'], list) or len(e['dt']) != nb
           for e in sc['elements']) or sorted(sc['order']) != list(range(nb)):
        return
    alone = [together(sc, [j])[0] for j in range(nb)]
    ctx.sim_time += (2 * nb + 1) * E.total_length(sc['elements']) / ct.c
    n_el = min(sum(1 for lab, _ in a if lab.startswith('after'))
               for a in alone)
    for idx in (list(range(nb)), sc['order']):
        got = together(sc, idx)
        for n, j in enumerate(idx):
            want = alone[j]
            have = got[n]
            done = sum(1 for lab, _ in have if lab.startswith('after'))
            if done < n_el:
                raise Violation('lost', 'bunches lost together after element '
                                '%d, alone after %d' % (done, n_el))
            if len(have) > len(want) or (done == len(sc['elements']) and
                                         len(have) != len(want)):
                raise Violation('count', 'bunch %d: %d outputs together, %d '
                                'alone' % (j, len(have), len(want)))
            for (la, a), (lb, b) in zip(want, have):
                bad = same_state(a, b)
                if bad:
                    raise Violation(
                        'disturbed', 'bunch %d of list %s, %s: %s differs '
                        'from the bunch tracked alone' % (j, idx, lb, bad))
        if nb > 1:
            ctx.nontrivial()
    if sc['fault']:
        ctx.fault('neighbour:' + sc['fault'])
    ctx.fault('list-order')
    ctx.ev([e['kind'] for e in sc['elements']], sc['order'],
           *[a[-1][1]['coords'] for a in alone if a])
    ctx.state([(e['kind'], [str(d) for d in e['dt']])
               for e in sc['elements']], sc['order'], sc['fault'])
