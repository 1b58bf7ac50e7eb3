"""C20: wakefields depend on where the charge is, not on how it is given."""
import numpy as np
import scipy.constants as ct

from sim import common, elements as E
from sim.common import SPECIES, Violation, coords

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=50000)
RULE = ('One seeded scenario per run: one to three bunches (any species) '
        'cross one or two plasma stages or lenses with self-consistent '
        'wakefields (1D fluid, quasistatic; with and without laser, channel '
        'and external field), with outputs and '
        'field updates interleaved. The same charge is then tracked again '
        'in another form: a bunch split into two at random, every '
        'macroparticle split into two, the list reordered, a bunch outside '
        'the box (in front, behind, at large radius) or test particles '
        'added, a neutral pair of bunches added, '
        'everything rotated or mirrored, a bunch of the same charge but other '
        'mass instead, or a trailing bunch added, moved or removed. All '
        'original particles have to move as before. Non-trivial: the wake moves a particle.')
MEASURE = 'wakefield model, transformation and order of pushes and updates'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['agreement within 1e-7 (1e-9 where no sum is reordered) of '
               'the effect of the fields plus 1e4 times that of a change of '
               'all weights by 1e-14']

WAYS = ('split', 'halves', 'order', 'outside', 'test', 'neutral', 'rotate',
        'mirror', 'mass', 'trailing', 'trailing')


def gen(r, i, tier):
    nb = r.choice([1, 2, 2, 3])
    els = []
    for _ in range(r.choice([1, 1, 2])):
        e = E.gen_element(r, ['fluid', 'fluid', 'apl_wf', 'qs'])
        e['dt'] = r.choice([1., 0.5, 0.25, 0.34, 0.2])
        e['bw'] = r.random() < 0.8
        els.append(e)
    bs = []
    for j in range(nb):
        b = E.gen_bunch(r, n=r.choice([2, 3, 5]), name='b%d' % j,
                        xi0=round(r.uniform(-24e-6, -8e-6), 9),
                        sxi=1.5e-6, sx=round(10 ** r.uniform(-6, -5), 9),
                        w=round(10 ** r.uniform(5.5, 8.5)))
        b.pop('outliers', None)
        if r.random() < 0.15:
            b['z_inj'] = b.get('prop', 0.) + round(
                els[0]['L'] * r.uniform(-.1, 1.2), 9)
        bs.append(b)
    way = r.choice(WAYS)
    if way == 'trailing':
        for e in els:
            e['grid']['nxi'] = r.choice([20, 24, 30])
        for b in bs:
            b['xi0'] = round(r.uniform(-15e-6, -8e-6), 9)
    elif r.random() < 0.3:
        # Particles at the edges of the box.
        g, b = els[0]['grid'], r.choice(bs)
        b['xi0'] = round(r.choice([g['xmin'], g['xmax']]), 9)
        b['sx'] = round(r.choice([b['sx'], g['rmax']]), 9)
    return dict(elements=els, bunches=bs, way=way,
                which=r.randrange(nb), k=r.randrange(10 ** 6))


def valid(sc):
    return len(sc['bunches']) > 0 and len(sc['elements']) > 0 and all(
        b['n'] > 1 for b in sc['bunches'])


def make(rows, w, b, name, **kw):
    q, m = SPECIES[kw.get('species', b['species'])]
    o = common.SimBunch(
        w, *np.array(rows), prop_distance=b.get('prop', 0.),
        z_injection=kw.get('z_inj', b.get('z_inj')), name=name, q_species=q,
        m_species=m)
    o.pushes, o.budget = [], 50000
    return o


def same(sc):
    """The bunches as given: list of (object, indices of its particles)."""
    out, n = [], 0
    for b in sc['bunches']:
        w, *rows = E.bunch_arrays(b)
        out.append((make(rows, w, b, b['name']), n + np.arange(b['n'])))
        n += b['n']
    return out


def changed(sc, rng):
    """The same charge in another form; also whether sums are reordered and
    the transformation of the result."""
    base = same(sc)
    way, which = sc['way'], sc['which'] % len(base)
    o, idx = base[which]
    b = sc['bunches'][which]
    back = None
    if way == 'split':
        pick = rng.rand(len(idx)) < 0.5
        if pick.all() or not pick.any():
            pick[0] = not pick[0]
        c = coords(o)
        parts = [(make(c[:, p], o.w[p], b, n), idx[p])
                 for p, n in ((pick, 'p1'), (~pick, 'p2'))]
        base[which:which + 1] = parts
        if b.get('z_inj') is not None:
            return None           # the head of the parts differs
        return base, True, back
    if way == 'halves':
        c = coords(o)
        f = rng.uniform(0.2, 0.8, size=len(idx))
        base[which] = (make(np.repeat(c, 2, axis=1), np.stack(
            [o.w * f, o.w * (1 - f)], axis=1).ravel(), b, 'halves'),
            np.repeat(idx, 2))
        return base, True, back
    if way == 'order':
        p = rng.permutation(len(base))
        return [base[i] for i in p], True, back
    if way == 'outside':
        g = sc['elements'][0]['grid']
        c = coords(o)
        c = c[:, :2].copy()
        k = rng.randint(3)
        c[0] += 20 * g['rmax'] if k == 0 else 0.
        c[2] += [0., 5e-3, -9e-3][k]
        c[3:5] = 0.
        base.insert(rng.randint(len(base) + 1), (
            make(c, np.full(2, 1e9), dict(b, z_inj=None), 'outside'), None))
        return base, False, back
    if way == 'test':
        c = coords(o)
        base.insert(rng.randint(len(base) + 1), (
            make(c + 1e-7, np.zeros(len(idx)), dict(b, z_inj=None), 'test'),
            None))
        return base, False, back
    if way == 'neutral':
        # Ballistic bunches: both stay together.
        c = coords(o)
        w = rng.uniform(1., 2., size=len(idx)) * b['w']
        at = rng.randint(len(base) + 1)
        for s in ('electron', 'positron'):
            base.insert(at, (make(c.copy(), w.copy(), b, s, species=s,
                                  z_inj=1e9), None))
        return base, True, back
    if way in ('rotate', 'mirror'):
        a = rng.randint(1, 40) * np.pi / 20
        m = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        if way == 'mirror':
            m = m @ np.diag([1., -1.])
        out = []
        for (o, idx), b in zip(base, sc['bunches']):
            c = coords(o)
            c[:2], c[3:5] = m @ c[:2], m @ c[3:5]
            out.append((make(c, o.w, b, b['name']), idx))
        return out, True, m
    if way == 'mass':
        # Ballistic, same velocities.
        q = SPECIES[b['species']][0]
        others = [s for s in sorted(SPECIES) if SPECIES[s][0] * q > 0
                  and s != b['species']]
        other = others[rng.randint(len(others))]
        f = q / SPECIES[other][0]
        base[which] = (make(coords(o), o.w * f, b, b['name'], species=other,
                            z_inj=1e9), None)
        ref, pert = same(sc), same(sc)
        for l in (ref, pert):
            l[which] = (make(coords(o), o.w, b, b['name'], z_inj=1e9), None)
        return base, f != 1., back, ref, pert
    if way == 'trailing':
        # All charge far behind everything else.
        c = coords(o)
        c[2] = rng.uniform(-47e-6, -44e-6, size=c.shape[1])
        c[3:5] = 0.
        at = rng.randint(len(base) + 1)
        base.insert(at, (make(c, rng.uniform(0.5, 3., size=len(idx)) * b['w'],
                              dict(b, z_inj=None), 'trailing'), None))
        # (The phase of an evolving laser depends on it by rounding.)
        return base, any('laser' in e for e in sc['elements']), back
    raise ValueError(way)


def go(sc, items, hook=None, scale=1.):
    """Track; returns the coordinates of the original particles at the end of
    every element, or None if a bunch is lost."""
    bunches = [o for o, _ in items]
    for o in bunches:
        o.w = o.w * scale
        if hook is not None:
            o.hook = hook
    n = 1 + max(i for _, idx in items if idx is not None for i in idx)
    states = []
    for e in sc['elements']:
        out = E.track(E.build(e), e, bunches)
        rows = [(bunches, None)] + [
            ([o[k] for o in out], k) for k in range(len(out[0]))]
        for objs, _ in rows:
            X = np.full((6, n), np.nan)
            for o, (_, idx) in zip(objs, items):
                if idx is None:
                    continue
                c = coords(o)
                X[:, idx] = c
                # Both halves of a particle move alike.
                d = np.max(np.abs(X[:, idx] - c)) if len(idx) else 0.
                if d > 1e-9 * (1 + np.max(np.abs(c))):
                    raise Violation('halves', 'two macroparticles at the '
                                    'same place move apart by %g' % d)
            states.append(X)
        if not E.usable(bunches):
            return None
    return states


def run(sc, ctx):
    rng = np.random.RandomState(sc['k'])
    r = changed(sc, rng)
    if r is None:
        return
    items, reordered, m = r[:3]
    ref_items = r[3] if len(r) > 3 else same(sc)
    order = common.Order()
    if not any(idx is not None for _, idx in ref_items):
        return
    ref = go(sc, ref_items, order)
    if ref is None:
        return
    far = min(np.nanmin(X[2]) for X in ref)
    got = go(sc, items)
    if sc['way'] == 'trailing':
        gr = [e['grid'] for e in sc['elements']]
        cell = max((g['xmax'] - g['xmin']) / (g['nxi'] - 1) for g in gr)
        tail = max(np.max(o.xi) for o, idx in items if idx is None)
        # Reach of the particle shape, of two derivatives and of gathering.
        if far - tail < 6.5 * cell:
            ctx.ev('too close')
            return
    if got is None:
        # The added bunch may be lost itself.
        ctx.ev('lost')
        return
    L = E.total_length(sc['elements'])
    ctx.sim_time += L / ct.c
    ctx.state([e['kind'] for e in sc['elements']], sc['way'], order.seq)
    start = np.concatenate([coords(o) for o, _ in same(sc)], axis=1)
    start = start[:, :ref[0].shape[1]]
    kick = max(np.nanmax(np.abs(a[3:] - start[3:])) for a in ref)
    if sc['way'] == 'trailing' and kick > 0.3 * np.nanmin(start[5]):
        # May be far behind in between.
        ctx.ev('slow')
        return
    if kick > 0:
        ctx.nontrivial()
    # Rounding, and the effect of rounding on the plasma.
    pert = go(sc, r[4] if len(r) > 4 else same(sc), scale=1 + 1e-14)
    if pert is None:
        return
    p = np.nanmax(np.abs(start[3:]))
    noise = max(np.nanmax(np.abs(a[3:] - b[3:])) for a, b in zip(ref, pert))
    if noise > 1e-8 * kick + 1e-12 * p:
        ctx.ev('chaotic')
        return
    tol = (1e-7 if reordered else 1e-9) * kick + 1e-12 * p + 1e4 * noise
    g = np.nanmin(np.abs(np.array(ref)[:, 5]))
    xtol = tol / g * L + 1e-12 * np.nanmax(np.abs(np.array(ref)[:, :3]))
    for k, (a, b) in enumerate(zip(ref, got)):
        if m is not None:
            b = b.copy()
            b[:2], b[3:5] = m.T @ b[:2], m.T @ b[3:5]
        ok = ~np.isnan(a[0])
        ctx.ev(k, a[:, ok])
        b = b[:, :a.shape[1]]
        d = np.max(np.abs(a[:, ok] - b[:, ok]), axis=1)
        if not (np.all(d[:3] <= xtol) and np.all(d[3:] <= tol)):
            raise Violation(sc['way'], 'state %d of the original particles '
                            'differs by %.2g m in position and %.2g in '
                            'momentum (the wake changes it by %.2g)' % (
                                k, np.max(d[:3]), np.max(d[3:]), kick))
