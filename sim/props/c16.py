"""C16: tracking never loses, invents, reorders or relabels particles."""
import os

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E, h5
from sim.common import Violation, bunch_state

LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=60000)
RULE = ('One seeded scenario per run: one or two bunches cross 1-4 real '
        'elements of any type (one by one or as a beamline, with or without '
        'files). Between elements the simulator kicks random particles: in '
        'front of, behind or beside every field box, out of the window, past '
        'each other, onto a grid node or onto another particle. After every '
        'element and in every snapshot and file the number of particles, '
        'weights, tags, name and species are compared with the start. The '
        'same history is run again with the particles of every bunch '
        'permuted: every output has to be the same permutation of the first '
        '(this pins the order). Non-trivial: at least one output or element '
        'compared with permuted particles.')
MEASURE = 'sequence of element kinds, kicks and output mode'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['sums over particles may be rounded differently for another '
               'order (tolerance 1e-7, with CSR 1e-5, of the extent of the '
               'bunch)', 'with CSR: 3 or more particles, all with charge']
KICKS = ('front', 'behind', 'side', 'window', 'swap', 'node', 'stack',
         'axis', 'far')


def gen(r, i, tier):
    nb = r.choice([1, 1, 1, 2])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.8:
        kinds.remove('qs')
    if r.random() < 0.2:
        kinds = ['fluid', 'qs', 'apl_wf']
    els = [E.gen_element(r, kinds, nb, csr=0.2)
           for _ in range(r.choice([1, 1, 2, 3]))]
    bunches = []
    for j in range(nb):
        b = E.gen_bunch(r, n=r.choice([3, 4, 6, 9]), name='b%d' % j)
        b['perm'] = r.randrange(10 ** 6)
        if r.random() < 0.3:
            b['equal_w'] = True
        if r.random() < 0.15:
            b['zero_w'] = not any(e.get('csr') for e in els)
        if any(e['kind'] == 'qs' for e in els):
            # Rounding must not be amplified by the plasma response.
            b['w'] = 1
        bunches.append(b)
    kicks = []
    for k in range(len(els)):
        kicks.append([[r.choice(KICKS), r.randrange(nb), r.randrange(9),
                       r.randrange(9)]
                      for _ in range(r.choice([0, 0, 1, 2]))])
    beamline = nb == 1 and r.random() < 0.25
    if beamline:
        kicks = kicks[:1] + [[] for _ in kicks[1:]]
    return dict(elements=els, bunches=bunches, kicks=kicks,
                opmd=r.random() < 0.35, beamline=beamline)


def bunch(spec, perm):
    w, *c = E.bunch_arrays(spec)
    if spec.get('equal_w'):
        w[:] = w[0]
    if spec.get('zero_w'):
        w[0] = 0.
    tags = np.arange(spec['n'])[::-1] * 3 + 7 if spec.get('tags') else None
    q, m = common.SPECIES[spec['species']]
    return wake_t.ParticleBunch(
        w[perm], *[a[perm] for a in c], prop_distance=spec.get('prop', 0.),
        name=spec['name'], q_species=q, m_species=m,
        tags=None if tags is None else tags[perm])


def kick(b, perm, k, i, j, g):
    """Displace particle number i (in the original numbering)."""
    inv = np.argsort(perm)
    n = len(perm)
    i, j = inv[i % n], inv[j % n]
    if k == 'front':
        b.xi[i] = g['xmax'] + 7e-6
    elif k == 'behind':
        b.xi[i] = g['xmin'] - 9e-6
    elif k == 'side':
        b.x[i] = 1.3 * g['rmax']
    elif k == 'window':
        b.xi[i] = 1e-3
    elif k == 'swap':
        b.xi[i], b.xi[j] = b.xi[j], b.xi[i]
    elif k == 'node':
        b.x[i] = g['rmax'] / g['nr'] * 2.5
        b.y[i] = 0.
        b.xi[i] = g['xmin'] + (g['xmax'] - g['xmin']) / (g['nxi'] - 1) * 3
    elif k == 'stack':
        for c in common.COORDS:
            getattr(b, c)[i] = getattr(b, c)[j]
    elif k == 'axis':
        b.x[i] = b.y[i] = 0.
    elif k == 'far':
        b.x[i] = g['rmax'] * 0.999
        b.xi[i] = g['xmin']


def execute(sc, perms, folder):
    """All bunch states in order: after every element, and of every
    snapshot; plus the labels and the files."""
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    reset_csr_calculator()
    g = sc['bunches'][0]['gamma']
    grid = dict(nxi=10, nr=8, rmax=40e-6, xmin=-50e-6, xmax=0.)
    for e in sc['elements']:
        grid = e.get('grid', grid)
    bunches = [bunch(s, p) for s, p in zip(sc['bunches'], perms)]
    start = [bunch_state(b) for b in bunches]
    states = []
    diag = OpenPMDDiagnostics(folder) if folder else False
    snaps = []
    objs = [E.build(e, gamma=g) for e in sc['elements']]

    def kicks(k):
        for name, b, i, j in sc['kicks'][k]:
            kick(bunches[b], perms[b], name, i, j, grid)

    def add(label, j, b):
        states.append((label, j, bunch_state(b)))
    if sc['beamline']:
        kicks(0)
        if not E.usable(bunches):
            raise E.Unphysical('lost')
        with E.guard(sc['elements'], sc['bunches'], bunches, g):
            out = Beamline(objs).track(bunches[0], show_progress_bar=False,
                                       opmd_diag=diag)
        for n, s in enumerate(out):
            add('snapshot %d' % n, 0, s)
            snaps.append([s])
        add('after the beamline', 0, bunches[0])
    else:
        for k, (el, e) in enumerate(zip(objs, sc['elements'])):
            kicks(k)
            if not E.usable(bunches):
                break
            out = E.track(el, e, bunches, opmd_diag=diag)
            for j, o in enumerate(out):
                for n, s in enumerate(o):
                    add('snapshot %d of element %d (%s)' % (n, k, e['kind']),
                        j, s)
            for n in range(len(out[0])):
                snaps.append([o[n] for o in out])
            for j, b in enumerate(bunches):
                add('after element %d (%s)' % (k, e['kind']), j, b)
    if folder:
        files = h5.series(folder)
        if sorted(files) != list(range(len(snaps))):
            raise Violation('files', 'files %s for %d outputs' % (
                sorted(files), len(snaps)))
        for n, f in sorted(files.items()):
            check_file(h5.File(f), snaps[n], n)
    return start, states


def check_file(f, snaps, n):
    if sorted(f.species) != sorted(b.name for b in snaps):
        raise Violation('files', 'output %d has species %s, bunches %s' % (
            n, sorted(f.species), sorted(b.name for b in snaps)))
    for b in snaps:
        s = f.species[b.name]
        for rec, want in (('weighting', b.w),
                          ('charge', b.q_species), ('mass', b.m_species),
                          ('x', b.x), ('y', b.y)):
            if rec in ('charge', 'mass'):
                # Constant records; readers ignore their extent.
                want = np.full(len(s[rec]), want)
            if not np.array_equal(s[rec], want, equal_nan=True):
                raise Violation('files', 'output %d, %s: %s in the file is '
                                '%s, snapshot %s' % (n, b.name, rec,
                                                     s[rec], want))


def labels(start, states):
    for label, j, s in states:
        a = start[j]
        for key, what in (('w', 'weights'), ('tags', 'tags'),
                          ('name', 'name'), ('q', 'charge of the species'),
                          ('m', 'mass of the species'),
                          ('z_inj', 'injection position')):
            if common.same_state(a, s, [key]):
                raise Violation(what.split()[0], '%s: %s of bunch %d changed '
                                'from %s to %s' % (label, what, j, a[key],
                                                   s[key]))
        if s['coords'].shape != a['coords'].shape:
            raise Violation('number', '%s: bunch %d has %d particles, '
                            'started with %d' % (
                                label, j, s['coords'].shape[1],
                                a['coords'].shape[1]))


def run(sc, ctx):
    if any(e.get('csr') for e in sc['elements']) and any(
            b['n'] < 3 or b.get('zero_w') for b in sc['bunches']):
        return            # CSR is defined for 3 or more charged particles
    ident = [np.arange(b['n']) for b in sc['bunches']]
    folder = os.path.join(ctx.tmp(), 'd') if sc['opmd'] else None
    start, states = execute(sc, ident, folder)
    labels(start, states)
    ctx.sim_time += E.total_length(sc['elements']) / ct.c
    ctx.ev([e['kind'] for e in sc['elements']],
           *[s['coords'] for _, _, s in states])
    ctx.state([e['kind'] for e in sc['elements']],
              [[k[0] for k in ks] for ks in sc['kicks']], sc['opmd'],
              sc['beamline'])
    for ks in sc['kicks']:
        for k in ks:
            ctx.fault('kick:' + k[0])
    perms = [np.random.RandomState(b['perm']).permutation(b['n'])
             for b in sc['bunches']]
    pstart, pstates = execute(sc, perms, None)
    labels(pstart, pstates)
    if len(pstates) != len(states):
        raise Violation('permuted', '%d outputs, %d with permuted particles'
                        % (len(states), len(pstates)))
    tol = 1e-5 if any(e.get('csr') for e in sc['elements']) else 1e-7
    for (label, j, s), (_, _, p) in zip(states, pstates):
        a, b = s['coords'][:, perms[j]], p['coords']
        if not np.all(np.isfinite(a)):
            continue
        ctx.nontrivial()
        e = error(a, b)
        if not e < tol:
            raise Violation('order', '%s: with the particles of bunch %d in '
                            'another order (%s) the result is not the same '
                            'in that order (difference %.2e)' % (
                                label, j, perms[j].tolist(), e))


def error(a, b):
    """Largest difference in units of the extent of each coordinate."""
    if a.shape != b.shape:
        return float('inf')
    worst = 0.
    for k, (u, v) in enumerate(zip(a, b)):
        ext = max(np.ptp(u), 1e-6 * np.max(np.abs(u)),
                  1e-9 if k < 3 else 1e-3)
        d = np.max(np.abs(u - v))
        worst = max(worst, d / ext if np.isfinite(d) else float('inf'))
    return worst
