"""C14: bunches move ballistically until their injection position."""
import numpy as np
import scipy.constants as ct

from wake_t import Beamline, ParticleBunch
from sim import common, elements as E
from sim.common import Violation, coords

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=80000)
RULE = ('One seeded scenario per run: 1-4 elements (field-based ones of all '
        'kinds and drifts), one or two bunches with injection positions '
        'before, inside and after the elements or none, tracked as a '
        'beamline, element by element, from snapshots of the previous '
        'element, or after a tracking that failed halfway. Every push is '
        'compared with free flight (before injection) or with the push of '
        'an identical bunch without injection position, and the position '
        'that decides is computed from the element lengths. Non-trivial: '
        'pushes on both sides of an injection position.')
MEASURE = 'element kinds, way of tracking, pushes before and after injection'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['no verdict when the foremost particle is at the injection '
               'position up to rounding (1e-9 of the push), except at the '
               'very beginning, where it has reached it if equal']


class Boom(Exception):
    pass


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = list(E.EXT_KINDS) + ['fluid', 'apl_wf']
    if nb == 1:
        kinds += ['drift', 'drift']
    if r.random() < 0.03:
        kinds = ['qs']
    els = [E.gen_element(r, kinds, nb, csr=0.) for _ in range(
        r.choice([1, 2, 3, 4]))]
    for e in els:
        if E.is_tm(e):
            e['L'] = round(10 ** r.uniform(-4, -2), 8)
        elif e['L'] > 0.02:
            e['L'] = round(e['L'] / 20, 9)
        if e['kind'] == 'qs':
            e['grid'].update(nxi=8, nr=6, ppc=1)
    total = E.total_length(els)
    bs = []
    name = E.namer(r)
    for j in range(nb):
        b = E.gen_bunch(r, n=r.choice([1, 2, 4]), name=name(j))
        m = r.random()
        if m < 0.8 or j == 0:
            p = b.get('prop', 0.)
            k = r.random()
            if k < 0.75:
                b['z_inj'] = p + r.uniform(-0.05, 1.1) * total
            elif k < 0.85:
                # Just at the border between two elements.
                b['z_inj'] = p + E.total_length(
                    els[:r.randint(0, len(els))]) + r.choice(
                        [-1, 1]) * r.uniform(0, 3e-5)
            elif k < 0.93:
                b['z_inj'] = r.choice([0., -1., 1e3, p])
            else:
                # Exactly reached at the beginning.
                b['z_inj'], b['prop'] = 'head', 0.
        bs.append(b)
    return dict(bunches=bs, elements=els,
                way=r.choice(['beamline', 'single', 'snapshot', 'failed']),
                at=r.random())


class Probe(ParticleBunch):
    """Records the state around every push and what the push of an identical
    bunch without injection position would give."""
    recs = None
    fail_at = None
    here = 0

    def evolve(self, *a, **k):
        if self.recs is None:
            return super().evolve(*a, **k)
        if self.fail_at is not None and len(self.recs) == self.fail_at:
            raise Boom()
        args = dict(zip(('fields', 't', 'dt', 'pusher'), a))
        args.update(k)
        c0 = coords(self)
        prop0 = float(self.prop_distance)
        twin = ParticleBunch(np.array(self.w), *c0.copy(),
                             q_species=self.q_species,
                             m_species=self.m_species, name='twin',
                             prop_distance=prop0)
        twin.evolve(*a, **k)
        super().evolve(*a, **k)
        self.recs.append(dict(t=float(args['t']), dt=float(args['dt']),
                              before=c0, after=coords(self),
                              twin=coords(twin), prop=prop0, here=self.here))


def probe(spec):
    b = E.build_bunch(spec, Probe)
    b.recs = []
    return b


def as_probe(s):
    """Continue from a snapshot."""
    p = Probe(np.array(s.w), *coords(s), q_species=s.q_species,
              m_species=s.m_species, name=s.name,
              prop_distance=s.prop_distance, z_injection=s.z_injection)
    p.x_ref, p.theta_ref = s.x_ref, s.theta_ref
    p.recs = []
    return p


def run(sc, ctx):
    els = sc['elements']
    g = sc['bunches'][0]['gamma']
    for b in sc['bunches']:
        if b.get('z_inj') == 'head':
            b['z_inj'] = float(np.max(E.bunch_arrays(b)[3]))
    bunches = [probe(b) for b in sc['bunches']]
    start = [float(b.prop_distance) for b in bunches]
    z_inj = [b.get('z_inj') for b in sc['bunches']]
    sides = [[0, 0] for _ in bunches]
    if sc['way'] == 'beamline':
        with E.guard(els, sc['bunches'], bunches, g):
            Beamline([marked(E.build(e, gamma=g), k, bunches)
                      for k, e in enumerate(els)]).track(
                bunches[0] if len(bunches) == 1 else bunches,
                show_progress_bar=False)
        for j, b in enumerate(bunches):
            check(b.recs, [r['here'] for r in b.recs], start[j], z_inj[j], els,
                  sides[j], ctx)
    else:
        done = 0.
        for k, e in enumerate(els):
            if not E.usable(bunches):
                break
            for b in bunches:
                b.recs = []
            if sc['way'] == 'failed':
                copies = [as_probe(b.copy()) for b in bunches]
                copies[-1].fail_at = int(sc['at'] * 6)
                try:
                    E.track(E.build(e, gamma=g), e, copies)
                except Boom:
                    ctx.fault('tracking-failed:push')
            out = E.track(E.build(e, gamma=g), e, bunches)
            for j, b in enumerate(bunches):
                check(b.recs, [k] * len(b.recs), start[j], z_inj[j], els,
                      sides[j], ctx)
            done += e['L']
            if sc['way'] == 'snapshot' and all(len(o) for o in out):
                last = [o[-1] for o in out]
                if all(abs(s.prop_distance - p - done) <= 1e-6 * e['L']
                       for s, p in zip(last, start)):
                    bunches = [as_probe(s) for s in last]
    ctx.sim_time += E.total_length(els) / ct.c
    ctx.state([e['kind'] for e in els], sc['way'], sides)
    if any(a and b for a, b in sides):
        ctx.nontrivial()


def marked(el, k, bunches):
    """Note which element is being tracked."""
    orig = el.track

    def track(*a, **kw):
        for b in bunches:
            b.here = k
        return orig(*a, **kw)
    el.track = track
    return el


def check(recs, where, start, z_inj, els, sides, ctx):
    for n, (r, k) in enumerate(zip(recs, where)):
        e = els[k]
        z = start + E.total_length(els[:k]) + r['t'] * ct.c
        what = 'element %d (%s), push %d' % (k, e['kind'], n)
        tol = 1e-6 * e['L'] + 1e-12 * abs(z)
        if abs(r['prop'] - z) > tol:
            raise Violation('position', '%s: position along the beamline is '
                            '%.9g, expected %.9g' % (what, r['prop'], z))
        head = float(np.max(r['before'][2])) + r['prop']
        full = np.array_equal(r['after'], r['twin'], equal_nan=True)
        if z_inj is None:
            ok, side = full, None
        elif abs(head - z_inj) < 1e-9 * r['dt'] * ct.c + 1e-13 * abs(head) \
                and not (r['prop'] == 0. and head == z_inj):
            continue
        elif head < z_inj:
            ok, side = ballistic(r), 0
        else:
            ok, side = full, 1
        ctx.ev(what, side, r['after'])
        if side is not None:
            sides[side] += 1
        if not ok:
            raise Violation(
                'early' if side == 0 else 'late',
                '%s: foremost particle %.3g m %s the injection position, but '
                'the push is not %s' % (
                    what, abs(head - (z_inj or 0.)),
                    'before' if side == 0 else 'behind',
                    'ballistic' if side == 0 else 'that of a bunch without '
                    'injection position'))


def ballistic(r):
    x, p = r['before'][:3], r['before'][3:]
    v = ct.c * p / np.sqrt(1 + np.sum(p**2, axis=0))
    v[2] -= ct.c
    want = x + v * r['dt']
    tol = 1e-12 * np.abs(x) + 1e-9 * np.abs(v * r['dt']) \
        + 1e-15 * ct.c * r['dt']
    return np.all(np.abs(r['after'][3:] - p) <= 1e-14 * np.abs(p)) and \
        np.all(np.abs(r['after'][:3] - want) <= tol)
