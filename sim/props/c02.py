"""C02: numerical fields are updated once per period on the local clock."""
import math
from fractions import Fraction as F

import scipy.constants as ct

from sim import common, elements as E
from sim.common import Violation

LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=120000)
RULE = ('One seeded scenario per run: (a) synthetic element with 1-3 '
        'numerical fields of different periods (commensurate or not, longer '
        'than the element, forced even), bunches, adaptive steps and outputs '
        'interleaved, tracked 1-3 times; (b) real wakefield models whose '
        'density profile records the positions it is sampled at, with and '
        'without laser, one field object shared by stages of different '
        'lengths, tracked repeatedly. Non-trivial: at least one update after '
        'the initial one.')
MEASURE = 'global order of pushes, field updates and copies in a run'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['an update due within 1e-6 of the element end may or may not '
               'happen unless updates are forced even']


def gen(r, i, tier):
    if r.random() < 0.7:
        sc = common.gen_fe(r)
        if not any(f['kind'] == 'num' for f in sc['fields']):
            return gen(r, i, tier)
        if r.random() < 0.2:
            sc['length'] = common.edge_length(r)
        sc['mode'] = 'fe'
        sc['repeat'] = r.choice([1, 1, 2, 3])
        return sc
    kinds = ['fluid', 'fluid', 'fluid', 'apl_wf', 'qs', 'ramp']
    e = E.gen_element(r, kinds)
    while e['kind'] == 'ramp' and 'grid' not in e:
        e = E.gen_element(r, ['ramp'])
    if e['kind'] == 'qs' and r.random() < 0.6:
        e['grid']['par'] = r.choice(['const', 'linear'])
    e['ext'] = False
    if e['kind'] == 'fluid' and r.random() < 0.3:
        e['laser'] = E.gen_laser(r)
        e['evol'] = r.random() < 0.8
        e['sub'] = r.choice([1, 2])
    e['dzf'] = r.choice([1., 0.5, 1/3., 0.4, 0.23, 1.7, 0.2, 0.11, 0.9,
                         None])
    sc = dict(mode='rz', element=e, bunches=[
        E.gen_bunch(r, n=r.choice([1, 2])) for _ in range(
            r.choice([0, 1, 1]))], repeat=r.choice([1, 1, 2, 3]))
    if e['kind'] in ('fluid', 'qs') and r.random() < 0.4:
        # The same field object in stages of other lengths.
        sc['lengths'] = [r.choice([0.5, 0.8, 1., 1.3, 2.]) for _ in range(2)]
    return sc


def expected(period, T, even):
    """Update times for a requested period (both in seconds)."""
    ratio = F(T) / F(period)
    if even:
        if ratio in (1, 2, 4, 8, 16):
            # Free of any rounding.
            n = int(ratio)
            return [[T * k / n for k in range(n + 1)]]
        lo = math.ceil(ratio * (1 - F(1, 10**9)))
        hi = math.ceil(ratio * (1 + F(1, 10**9)))
        return [[T * k / n for k in range(n + 1)] for n in {lo, hi}]
    out = []
    for tol in (F(1, 10**6), -F(1, 10**6)):
        n = math.floor(ratio * (1 + tol))
        out.append([period * k for k in range(n + 1)])
    exact = abs(ratio - round(ratio)) < ratio / 10**9
    return out[:1] if exact else out


def compare(times, period, T, even, what):
    for exp in expected(period, T, even):
        if len(exp) == len(times) and all(
                abs(a - b) <= 1e-9 * T for a, b in zip(times, exp)):
            return
    exp = expected(period, T, even)[0]
    raise Violation('updates', '%s: updates at %s T, expected %s T' % (
        what, ['%.6g' % (t / T) for t in times],
        ['%.6g' % (t / T) for t in exp]))


def run(sc, ctx):
    globals()['run_' + sc['mode']](sc, ctx)


def run_fe(sc, ctx):
    order = common.Order()
    el, bunches, fields = common.build_fe(sc, hook=order)
    L, T = common.fe_units(sc)
    nums = [(f, s) for f, s in zip(fields, sc['fields'])
            if s['kind'] == 'num']
    for rep in range(sc['repeat']):
        if rep > 0:
            # New bunches, same fields and element.
            el2, bunches, _ = common.build_fe(sc, hook=order)
            el.auto_dt_bunch = el2.auto_dt_bunch
        for f, _ in nums:
            f.updates = []
        common.track_list(el, bunches)
        ctx.sim_time += T
        for j, (f, s) in enumerate(nums):
            ts = [u[0] for u in f.updates]
            ctx.ev('field', j, len(ts), ts)
            if len(ts) > 1:
                ctx.nontrivial()
            compare(ts, float(common.frac(s['dt'])) * T, T, s['even'],
                    'field %d, tracking %d' % (j, rep))
    ctx.state(order.seq)


def run_rz(sc, ctx):
    e = sc['element']
    log = []
    chan = []
    el = E.build(e, log=log, channel_log=chan)
    stages = [(el, e['L'])]
    wake = getattr(el, 'wakefield', None)
    if 'lengths' in sc and wake is not None:
        from wake_t import PlasmaStage
        for f in sc['lengths']:
            stages.append((PlasmaStage(
                f * e['L'], E.density_of(e['dens'], e['L'], log),
                wakefield_model=wake, dt_bunch='auto',
                bunch_pusher=e['pusher'], n_out=e['n_out']), f * e['L']))
    order = []
    for rep in range(sc['repeat']):
        for el, L in stages:
            del log[:]
            del chan[:]
            bunches = [E.build_bunch(b) for b in sc['bunches']]
            if isinstance(el.dt_bunch, list):
                el.dt_bunch = el.dt_bunch[0]
            el.track(bunches, show_progress_bar=False)
            T = L / ct.c
            ctx.sim_time += T
            up = e['kind'] == 'ramp' and e['type'] == 'upramp'
            for what, zs in (('density', log), ('channel', chan)):
                if what == 'channel' and not e['grid'].get('par'):
                    continue
                ts = [(L - z if up else z) / ct.c for z in zs]
                # Repeated evaluations at the same place are no update.
                ts = [t for k, t in enumerate(ts) if k == 0 or t != ts[k-1]]
                ctx.ev('rz', e['kind'], what, ts)
                order.append(len(ts))
                if len(ts) > 1:
                    ctx.nontrivial()
                compare(ts, E.dz_fields(e) / ct.c, T, 'laser' in e,
                        '%s of %s, tracking %d' % (what, e['kind'], rep))
    ctx.state(e['kind'], order, 'laser' in e)
