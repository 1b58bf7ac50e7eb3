"""C19: generated bunches are reproducible and as requested."""
import math
import sys

import numpy as np
import scipy.constants as ct

from wake_t import Drift, ParticleBunch
from wake_t.utilities.bunch_generation import (
    get_gaussian_bunch_from_twiss, get_gaussian_bunch_from_size,
    get_matched_bunch)
from sim import common, elements as E
from sim.clock import CLOCK
from sim.common import SPECIES, Violation, bunch_state, coords, same_state

LEVEL = 'exploration'
RUNS = dict(quick=1500, thorough=30000)
RULE = ('One seeded scenario per run: a history of 2-6 operations on the '
        'process and its random generator: bunches generated with each '
        'generator (any Twiss parameters, offsets, angles, energies, '
        'spreads, charges, species, named or not, 1 to 100000 particles), '
        'bunches created directly, copied or tracked in between, wall clock '
        'jumps, generations that fail or are interrupted at a random '
        'executed line. Every bunch is compared with the request: exact '
        'numbers exactly, second moments, correlations and fourth moments '
        'within six standard errors. The history is executed again from the '
        'same state of the generator after other work, with other clocks, '
        'and has to give the same bunches bit for bit. Non-trivial: at least '
        'one bunch generated.')
MEASURE = 'sequence of operations, generators, species and sizes'
REAL = ['wake_t (whole package, kernels as Python)', 'aptools', 'scipy.stats']
STUB = ['seed of the numpy random generator', 'wall clock',
        'numba compiler and thread pool']
ASSUMPTIONS = ['all random numbers come from the global numpy generator, '
               'which is what a user seeds']


def gen_request(r, large):
    kind = r.choice(['twiss', 'twiss', 'size', 'matched'])
    sp = r.choice(['electron', 'electron', 'positron', 'proton', 'muon',
                   'ion'])
    if kind == 'matched' and sp not in ('electron', 'positron'):
        sp = 'electron'
    q = dict(kind=kind, species=sp,
             en=[round(10 ** r.uniform(-7.5, -5), 10) for _ in 'xy'],
             ene=round(10 ** r.uniform(1.5, 4.5), 3),
             spread=r.choice([0., 0.01, 0.1, 1., 3.]),
             st=round(10 ** r.uniform(0, 2.5), 3),
             xi=round(r.uniform(-1e-4, 1e-4), 9),
             charge=round(10 ** r.uniform(-2, 3), 4),
             n=r.choice([100000, 60000]) if large else
             r.choice([1, 2, 3, 17, 1000]),
             name=r.choice([None, None, 'witness', 'a b']))
    if r.random() < 0.3:
        q['en'][1] = q['en'][0]
    if r.random() < 0.5:
        q['off'] = [round(r.uniform(-1e-4, 1e-4), 9) for _ in 'xy']
    if r.random() < 0.5:
        q['theta'] = [round(r.uniform(-2e-3, 2e-3), 7) for _ in 'xy']
    if kind == 'twiss':
        q['a'] = [r.choice([0., round(r.uniform(-4, 4), 4)]) for _ in 'xy']
        q['b'] = [round(10 ** r.uniform(-3, 1), 6) for _ in 'xy']
    elif kind == 'size':
        q['s'] = [round(10 ** r.uniform(-6.5, -4), 10) for _ in 'xy']
    else:
        if r.random() < 0.6:
            q['np'] = round(10 ** r.uniform(21, 24.5), -18)
        if 'np' not in q or r.random() < 0.3:
            q['kx'] = round(10 ** r.uniform(2, 6))
    if r.random() < 0.2:
        q['float_n'] = True
    if r.random() < 0.2:
        q['negative'] = True      # charge given with its sign
    return q


def gen(r, i, tier):
    ops = []
    large = r.randrange(4)
    for k in range(r.randint(2, 6)):
        m = r.random()
        if m < 0.6 or k == 0:
            q = gen_request(r, k == large)
            op = dict(op='gen', req=q)
            if r.random() < 0.15:
                op['interrupt'] = r.randint(1, 60)
            ops.append(op)
        else:
            ops.append(dict(op=r.choice(['new', 'copy', 'track', 'fail',
                                         'clock'])))
    return dict(seed=r.randrange(2 ** 31), ops=ops,
                before=[gen_request(r, False)
                        for _ in range(r.choice([0, 1, 2]))],
                garbage=r.randrange(2 ** 31))


def generate(q):
    qs, ms = SPECIES[q['species']]
    kw = {}
    if q.get('off'):
        kw.update(x_off=q['off'][0], y_off=q['off'][1])
    if q.get('theta'):
        kw.update(theta_x=q['theta'][0], theta_y=q['theta'][1])
    if q['name'] is not None:
        kw.update(name=q['name'])
    if q['species'] != 'electron':
        kw.update(q_species=qs, m_species=ms)
    n = float(q['n']) if q.get('float_n') else q['n']
    ch = q['charge'] * (math.copysign(1, qs) if q.get('negative') else 1)
    tail = dict(ene=q['ene'], ene_sp=q['spread'], s_t=q['st'], xi_c=q['xi'],
                q_tot=ch, n_part=n, **kw)
    if q['kind'] == 'twiss':
        return get_gaussian_bunch_from_twiss(
            en_x=q['en'][0], en_y=q['en'][1], a_x=q['a'][0], a_y=q['a'][1],
            b_x=q['b'][0], b_y=q['b'][1], **tail)
    if q['kind'] == 'size':
        return get_gaussian_bunch_from_size(
            en_x=q['en'][0], en_y=q['en'][1], s_x=q['s'][0], s_y=q['s'][1],
            **tail)
    if 'np' in q:
        tail['n_p'] = float(q['np'])
    if 'kx' in q:
        tail['k_x'] = float(q['kx'])
    return get_matched_bunch(en_x=q['en'][0], en_y=q['en'][1], **tail)


def twiss(q, k):
    """Requested alpha and beta in plane k."""
    if q['kind'] == 'twiss':
        return q['a'][k], q['b'][k]
    if q['kind'] == 'size':
        return 0., q['s'][k]**2 * q['ene'] / q['en'][k]
    grad = float(q['kx']) if 'kx' in q else \
        q['np'] * ct.e / (2 * ct.epsilon_0 * ct.c)
    return 0., math.sqrt(q['ene'] * ct.m_e * ct.c / (ct.e * grad))


def check(q, b, what):
    qs, ms = SPECIES[q['species']]
    n = q['n']
    if len(b.w) != n or coords(b).shape != (6, n):
        raise Violation('count', '%s: %d particles instead of %d' % (
            what, len(b.w), n))
    if b.q_species != qs or b.m_species != ms:
        raise Violation('species', '%s: charge %g, mass %g' % (
            what, b.q_species, b.m_species))
    if q['name'] is not None and b.name != q['name']:
        raise Violation('name', '%s is called %r' % (what, b.name))
    ch = q['charge'] * 1e-12
    if not abs(np.sum(b.w) * abs(qs) / ch - 1) < 1e-9 or not np.all(b.w > 0):
        raise Violation('charge', '%s: total charge %g C instead of %g C' % (
            what, np.sum(b.w) * abs(qs), ch))
    c = coords(b)
    if not np.all(np.isfinite(c)):
        raise Violation('finite', '%s is not finite' % what)
    if b.prop_distance != 0 or b.z_injection is not None:
        raise Violation('position', '%s does not start at 0' % what)
    sz = q['st'] * 1e-15 * ct.c
    if np.max(np.abs(c[2] - q['xi'])) > 3 * sz * (1 + 1e-9) + 1e-18:
        raise Violation('length', '%s extends over more than 3 standard '
                        'deviations' % what)
    if q['spread'] == 0 and np.max(np.abs(c[5] / q['ene'] - 1)) > 1e-12:
        raise Violation('energy', '%s has an energy spread' % what)
    if n >= 1000:
        moments(q, c, n, what)


def moments(q, c, n, what):
    se = 6 / math.sqrt(n)
    off, th = q.get('off', [0., 0.]), q.get('theta', [0., 0.])
    d = q['spread'] / 100
    cols, sig = [], []

    def close(name, got, want, lim):
        if not abs(got - want) <= lim:
            raise Violation('moments', '%s: %s is %.5g, requested %.5g '
                            '(+- %.2g)' % (what, name, got, want, lim))
    for k, ax in enumerate('xy'):
        a, be = twiss(q, k)
        em = q['en'][k] / q['ene']
        sx, sp = math.sqrt(em * be), math.sqrt(em * (1 + a * a) / be)
        x, p = c[k], c[3 + k]
        close('offset in ' + ax, np.mean(x), off[k], se * sx)
        close('angle in ' + ax, np.mean(p) / q['ene'], th[k],
              se * sp * (1 + d))
        u = x - np.mean(x)
        v = (p - np.mean(p)) / c[5]
        close('size in ' + ax, np.mean(u * u) / sx**2, 1., se * 1.5)
        close('divergence in ' + ax, np.mean(v * v) / sp**2, 1., se * 1.6)
        close('correlation in ' + ax, np.mean(u * v) / (sx * sp),
              -a / math.sqrt(1 + a * a), se * 1.6)
        close('fourth moment in ' + ax, np.mean(u**4) / sx**4, 3., se * 10)
        cols += [u / sx, v / sp]
    sz = q['st'] * 1e-15 * ct.c
    close('position', np.mean(c[2]), q['xi'], se * sz)
    u = (c[2] - np.mean(c[2])) / sz
    close('duration', np.mean(u * u), 0.97331, se * 1.5)
    cols.append(u)
    if d > 0:
        close('energy', np.mean(c[5]) / q['ene'], 1., se * d)
        u = (c[5] / np.mean(c[5]) - 1) / d
        close('energy spread', np.mean(u * u), 1., se * 1.5)
        cols.append(u)
    planes = [0, 0, 1, 1, 2, 3]
    for i in range(len(cols)):
        for j in range(i):
            if planes[i] != planes[j]:
                close('correlation of coordinates %d and %d' % (i, j),
                      np.mean(cols[i] * cols[j]), 0., se * 1.1)


def interrupted(line, f, *a):
    """f(*a), interrupted at the given executed line of Wake-T code; returns
    (result, interrupted?)."""
    left = [line]

    def tracer(frame, event, arg):
        if '/wake_t/' not in frame.f_code.co_filename:
            return None
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                raise KeyboardInterrupt('simulated')
        return tracer
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return f(*a), False
    except KeyboardInterrupt:
        return None, True
    finally:
        sys.settrace(old)


def history(sc, ctx, names, rep):
    """Execute the operations; returns the states of the bunches made."""
    np.random.seed(sc['seed'])
    out, held = [], []
    for k, op in enumerate(sc['ops']):
        what = 'bunch %d of repetition %d' % (k, rep)
        if op['op'] == 'gen':
            if 'interrupt' in op:
                st = np.random.get_state()
                b, hit = interrupted(op['interrupt'], generate, op['req'])
                if hit:
                    ctx.fault('interrupted-generation')
                    np.random.set_state(st)
                    b = generate(op['req'])
            else:
                b = generate(op['req'])
            check(op['req'], b, what)
            ctx.nontrivial()
            if op['req']['name'] is None:
                unique(b, names, what)
            st = bunch_state(b)
            for other, _ in held:
                for c in common.COORDS + ('w',):
                    if np.shares_memory(getattr(b, c), getattr(other, c)):
                        raise Violation('shared', '%s shares memory' % what)
            for i, s in enumerate(out):
                for c in (0, 1, 2):
                    u, v = s['coords'][c], st['coords'][c]
                    if len(u) == len(v) >= 17 and \
                            abs(np.corrcoef(u, v)[0, 1]) > 0.999999:
                        raise Violation('repeated', '%s has the random '
                                        'numbers of bunch %d' % (what, i))
            out.append(st)
            held.append((b, st))
        elif op['op'] == 'new':
            b = ParticleBunch(np.ones(2), *np.ones((6, 2)))
            unique(b, names, 'a new bunch')
        elif op['op'] == 'copy' and held:
            b = held[-1][0].copy()
            if b.name != held[-1][0].name:
                raise Violation('name', 'copy called %r' % b.name)
        elif op['op'] == 'track' and held:
            b = held[-1][0].copy()
            Drift(0.1).track(b, show_progress_bar=False)
        elif op['op'] == 'fail':
            ctx.fault('failed-generation')
            st = np.random.get_state()
            try:
                get_gaussian_bunch_from_twiss(
                    1e-6, 1e-6, 0, 0, 1, 1, 100, 1, 1, 0, 10, 'many')
            except (ValueError, TypeError):
                pass
            try:
                get_matched_bunch(1e-6, 1e-6, 100, 1, 1, 0, 10, 5)
            except (ValueError, TypeError):
                pass
            np.random.set_state(st)
        elif op['op'] == 'clock':
            ctx.fault('clock-jump')
            CLOCK.now += 1e5
        for b, st in held:
            bad = same_state(st, bunch_state(b))
            if bad:
                raise Violation('changed', 'an earlier bunch changed in %s'
                                % bad)
    return out


def unique(b, names, what):
    if b.name in names or not b.name:
        raise Violation('name', '%s is called %r like an earlier one' % (
            what, b.name))
    names.add(b.name)


def run(sc, ctx):
    state = np.random.get_state()
    try:
        names = set()
        first = history(sc, ctx, names, 0)
        # Other work in between, other memory contents.
        np.random.seed(sc['garbage'])
        for q in sc['before']:
            generate(q)
        second = history(sc, ctx, names, 1)
    finally:
        np.random.set_state(state)
    for k, (a, b) in enumerate(zip(first, second)):
        ctx.ev(k, a['coords'])
        a, b = dict(a, name=''), dict(b, name='')
        bad = same_state(a, b)
        if bad:
            raise Violation('reproducible', 'generated bunch %d differs in %s '
                            'when generated again from the same seed' % (
                                k, bad))
    ctx.state([(o['op'], o.get('req', {}).get('kind'),
                o.get('req', {}).get('species'), o.get('req', {}).get('n'))
               for o in sc['ops']])
