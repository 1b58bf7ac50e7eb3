"""C13: a laser pulse evolves exactly once per field update across stages."""
import copy
import math

import numpy as np
import scipy.constants as ct

from wake_t.fields.numerical_field import NumericalField
from wake_t.physics_models.laser.laser_pulse import LaserPulse
from sim import elements as E
from sim.common import Violation
from sim.props.c07 import RaisingLog

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=40000)
RULE = ('One seeded scenario per run: one pulse (Gaussian, Laguerre-Gauss, '
        'flattened, sum; with or without subgrid and substeps) is handed '
        'through 1-4 stages of different lengths, models, update distances '
        'and densities, interleaved with rejected grid changes, stages '
        'without evolution, and trackings that fail at a random density '
        'evaluation. Every advance is counted and replayed on a second '
        'pulse; or one stage is compared with the same stage cut in two or '
        'three. Non-trivial: the pulse was advanced at least twice.')
MEASURE = 'stage kinds, updates per stage, faults'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['a pulse whose step size changes restarts with the '
               'non-centred scheme']


def gen_stage(r, kinds=('fluid', 'fluid', 'fluid', 'qs', 'blowout')):
    e = E.gen_element(r, (r.choice(kinds),), 1)
    e['ext'] = False
    e['dt'] = r.choice([1., 0.5, 0.25, 0.3])
    e['L'] = round(10 ** r.uniform(-4.5, -3.2), 9)
    e.pop('laser', None)
    e['n_out'] = r.choice([0, 1, 2])
    e['evol'] = r.random() < 0.85
    e['sub'] = r.choice([1, 1, 2, 3])
    e['phase'] = r.random() < 0.75
    if e['kind'] == 'blowout':
        e['dzf'] = 1.
    return e


def gen(r, i, tier):
    laser = E.gen_laser(r)
    grid = dict(E.gen_grid(r, 'fluid'), ppc=1, pp='rk4')
    sub = [r.choice([9, 16, 25]), r.choice([7, 12])] if r.random() < 0.3 \
        else None
    bunch = E.gen_bunch(r, n=2, w=100., outliers=False)
    if r.random() < 0.25:
        e = gen_stage(r, ('fluid', 'fluid', 'qs'))
        n = r.choice([2, 3, 4, 4, 6, 8])
        parts = []
        left = n
        while left:
            k = r.choice([1, 2, 4, left])
            k = min(k, left)
            parts.append(k)
            left -= k
        if len(parts) == 1:
            parts = [1, n - 1]
        e.update(L=e['L'], dzf=1. / n, evol=True, n_out=r.choice([0, 1]),
                 dt=1. / n)
        small(e, grid)
        return dict(mode='split', laser=laser, grid=grid, subgrid=sub,
                    bunch=bunch, stage=e, parts=parts)
    stages = []
    kinds = ['fluid', 'fluid', 'qs'] + (
        ['blowout'] if laser['kind'] == 'gauss' else [])
    for _ in range(r.randint(1, 4)):
        e = gen_stage(r, kinds)
        small(e, grid)
        op = dict(e=e)
        if stages and r.random() < 0.25:
            # Same step size as before: an integer number of updates.
            p = stages[-1]['e']
            m = r.choice([1, 2, 4])
            e['L'], e['dzf'] = p['L'] * m, p['dzf'] / m
        if r.random() < 0.3:
            op['grid'] = r.choice(['nxi', 'nr', 'rmax', 'xmin', 'xmax',
                                   'subgrid', 'both'])
        if r.random() < 0.2:
            op['raise'] = r.choice([1, 2, 2, 3, 4])
        stages.append(op)
    return dict(mode='chain', laser=laser, grid=grid, subgrid=sub,
                bunch=bunch, stages=stages)


def small(e, grid):
    if e['kind'] == 'qs':
        e['dzf'] = max(e['dzf'], 0.3)
        grid.update(nxi=min(grid['nxi'], 12), nr=8)


class Boom(Exception):
    pass


def spec(sc, e):
    e = dict(e)
    if e['kind'] != 'blowout':
        e['grid'] = sc['grid']
        if sc['subgrid']:
            e['subgrid'] = sc['subgrid']
    return e


class Watch:
    """Records what is done to one pulse and what the plasma response was
    after each field update."""

    def __init__(self, pulse):
        self.pulse = pulse
        self.evolved = []           # (chi, n_p, envelope before, after)
        self.params = []            # accepted solver parameters (args)
        self.updates = 0
        self.chi = None
        ev, sp = pulse.evolve, pulse.set_envelope_solver_params

        def evolve(chi, n_p):
            rec = dict(chi=np.array(chi), n_p=float(n_p),
                       before=np.array(pulse.get_envelope()),
                       last_chi=self.chi, seg=len(self.params))
            ev(chi, n_p)
            rec['after'] = np.array(pulse.get_envelope())
            self.evolved.append(rec)

        def params(*a, **k):
            sp(*a, **k)
            self.params.append((a, k))
        pulse.evolve = evolve
        pulse.set_envelope_solver_params = params
        self.orig = orig = NumericalField.update
        me = self

        def update(self, *a, **k):
            orig(self, *a, **k)
            if getattr(self, 'laser', None) is pulse:
                me.updates += 1
                chi = getattr(self, 'chi', None)
                me.chi = None if chi is None else np.array(chi)[2:-2, 2:-2]
        NumericalField.update = update

    def close(self):
        NumericalField.update = self.orig


def run(sc, ctx):
    if sc['mode'] == 'split':
        return split(sc, ctx)
    pulse = E.build_laser(sc['laser'])
    w = Watch(pulse)
    try:
        chain(sc, ctx, pulse, w)
    finally:
        w.close()


def n_updates(e):
    return max(1, math.ceil(1. / e['dzf'] / (1 + 1e-12) - 1e-9))


def dt_of(call):
    a, k = call
    return a[5] if len(a) > 5 else k['dt']


def chain(sc, ctx, pulse, w):
    g = sc['bunch']['gamma']
    twin = E.build_laser(sc['laser'])
    # Only the product of response and density acts on the pulse.
    scaled, n_ref = E.build_laser(sc['laser']), 3e22
    shape = []
    twin_env = None
    for j, op in enumerate(sc['stages']):
        e = spec(sc, op['e'])
        what = 'stage %d (%s)' % (j, e['kind'])
        numeric = e['kind'] != 'blowout'
        started = pulse.get_envelope() is not None
        if op.get('grid') and started and numeric:
            reject(sc, ctx, op, e, pulse, what, g)
        log = RaisingLog()
        raised = [0]

        def fail(kind, obj, n=op.get('raise')):
            raised[0] += 1
            if n is not None and raised[0] == n:
                raise Boom()
        log.fail = fail
        el = E.build(e, laser=pulse, log=log, gamma=g)
        bunch = E.build_bunch(sc['bunch'])
        n0, u0, s0 = len(w.evolved), w.updates, len(w.params)
        env0 = None if not started else np.array(pulse.get_envelope())
        failed = False
        try:
            E.track(el, e, [bunch])
        except Boom:
            failed = True
            ctx.fault('tracking-failed:density')
        ctx.sim_time += e['L'] / ct.c
        new = w.evolved[n0:]
        env1 = pulse.get_envelope()
        shape.append((e['kind'], len(new), e.get('evol'), failed))
        if not numeric:
            if new or (started and not np.array_equal(env0, env1)):
                raise Violation('blowout', '%s evolved the pulse' % what)
            continue
        if env1 is None:
            if not failed:
                raise Violation('count', '%s did not initialise the pulse' %
                                what)
            continue
        env1 = np.array(env1)
        if not started:
            want = reference_envelope(sc, pulse)
            if want is not None:
                first = new[0]['before'] if new else env1
                if not np.allclose(first, want, rtol=1e-10,
                                   atol=1e-12 * np.abs(want).max()):
                    raise Violation('initial', '%s: the pulse does not start '
                                    'as specified' % what)
        if not e['evol']:
            if new or (started and not np.array_equal(env0, env1)):
                raise Violation('constant', '%s changed the pulse although '
                                'its evolution is off' % what)
        elif not failed:
            n = n_updates(e)
            if len(new) != n:
                raise Violation('count', '%s: pulse advanced %d times, '
                                'expected %d' % (what, len(new), n))
            adv = len(new) * dt_of(w.params[-1]) * ct.c
            if abs(adv - e['L']) > 1e-9 * e['L']:
                raise Violation('length', '%s: pulse advanced by %.12g m in '
                                'a stage of %.12g m' % (what, adv, e['L']))
            if w.updates - u0 not in (0, n + 1):
                raise Violation('count', '%s: %d field updates, expected %d'
                                % (what, w.updates - u0, n + 1))
        # The twin makes the same advances and nothing else.
        for k in range(s0, len(w.params)):
            a, kw = w.params[k]
            twin.set_envelope_solver_params(*a, **kw)
            scaled.set_envelope_solver_params(*a, **kw)
        if twin_env is None:
            twin.initialize_envelope()
            scaled.initialize_envelope()
            twin_env = True
        dens = E.density_of(op['e']['dens'], e['L'], [])
        for k, rec in enumerate(new):
            if not np.array_equal(rec['before'], twin.get_envelope()):
                raise Violation('jump', '%s, advance %d: the pulse changed '
                                'since its last advance' % (what, k))
            if k == 0 and not failed and dt_changed(w.params) and \
                    sc['subgrid'] is None:
                restart(sc, rec, w.params[-1], what)
            twin.evolve(rec['chi'], rec['n_p'])
            if not np.array_equal(rec['after'], twin.get_envelope()):
                raise Violation('evolution', '%s, advance %d: another result '
                                'than an identical pulse with the same '
                                'plasma response' % (what, k))
            scaled.evolve(rec['chi'] * (rec['n_p'] / n_ref), n_ref)
            d = np.abs(rec['after'] - scaled.get_envelope()).max()
            if not d <= 1e-6 * np.abs(rec['after']).max():
                raise Violation('density', '%s, advance %d: the pulse is not '
                                'advanced with density %.6g (off by %.3g)' % (
                                    what, k, rec['n_p'], d))
            z = k * dt_of(w.params[-1]) * ct.c
            want = float(dens(z))
            if abs(rec['n_p'] - want) > 1e-9 * want:
                raise Violation('density', '%s, advance %d: density %.9g, at '
                                'the previous update it was %.9g' % (
                                    what, k, rec['n_p'], want))
            if rec['last_chi'] is not None and not np.array_equal(
                    rec['chi'], rec['last_chi']):
                raise Violation('response', '%s, advance %d: plasma response '
                                'is not that of the previous update' % (
                                    what, k))
            ctx.ev(what, k, rec['after'])
        if not np.array_equal(env1, twin.get_envelope()):
            raise Violation('jump', '%s: the pulse changed after its last '
                            'advance' % what)
        if len(w.evolved) >= 2:
            ctx.nontrivial()
    ctx.state(shape, sc['laser']['kind'], bool(sc['subgrid']))


def reference_envelope(sc, pulse):
    """Envelope function of the pulse on the grid (None with a subgrid)."""
    if sc['subgrid']:
        return None
    g = sc['grid']
    dr = g['rmax'] / g['nr']
    z = np.linspace(g['xmin'], g['xmax'], g['nxi'])
    r = np.linspace(dr / 2, g['rmax'] - dr / 2, g['nr'])
    Z, R = np.meshgrid(z, r, indexing='ij')
    return E.build_laser(sc['laser']).envelope_function(Z, R, 0.)


def dt_changed(params):
    """Did the internal step change with the last stage?"""
    if len(params) < 2:
        return False

    def internal(c):
        a, k = c
        nt = a[6] if len(a) > 6 else k.get('nt', 1)
        return dt_of(c) / nt
    a, b = internal(params[-2]), internal(params[-1])
    return abs(a - b) > 1e-9 * b


class Frozen(LaserPulse):
    """A pulse that starts with a given envelope."""

    def __init__(self, l_0, env):
        super().__init__(l_0)
        self.env = env

    def envelope_function(self, xi, r, z_pos):
        return self.env


def restart(sc, rec, call, what):
    """After a change of step the next advance depends only on the current
    envelope."""
    p = Frozen(sc['laser']['l0'], rec['before'])
    p.set_envelope_solver_params(*call[0], **call[1])
    p.initialize_envelope()
    p.evolve(rec['chi'], rec['n_p'])
    a, b = rec['after'], p.get_envelope()
    s = np.abs(b).max()
    if not np.all(np.abs(a - b) <= 1e-9 * s):
        raise Violation('step-change', '%s: the first advance after a change '
                        'of step is off by %.3g' % (
                            what, np.abs(a - b).max() / s))


def reject(sc, ctx, op, e, pulse, what, g):
    """A stage with another grid must be rejected and leave the pulse."""
    k = op['grid']
    bad = dict(e, grid=dict(e['grid']))
    sub = bad.pop('subgrid', None)
    if k in ('nxi', 'nr'):
        bad['grid'][k] += 3
    elif k in ('rmax', 'xmin'):
        bad['grid'][k] *= 1.25
    elif k == 'xmax':
        bad['grid'][k] += 2e-6
    elif k == 'both':
        bad['grid']['nxi'] += 2
        bad['grid']['nr'] += 1
    if k == 'subgrid':
        if sub is None:
            sub = [e['grid']['nxi'] + 5, e['grid']['nr'] + 2]
        else:
            sub = [sub[0] + 4, sub[1]]
    if sub is not None:
        bad['subgrid'] = sub
    env = np.array(pulse.get_envelope())
    was = twin_of(pulse)
    ctx.fault('grid-change:' + k)
    try:
        E.track(E.build(bad, laser=pulse, gamma=g), bad,
                [E.build_bunch(sc['bunch'])])
    except ValueError:
        pass
    else:
        raise Violation('grid', '%s: a change of %s of the grid was accepted'
                        % (what, k))
    if not np.array_equal(env, pulse.get_envelope()):
        raise Violation('grid', '%s: the rejected change of %s altered the '
                        'pulse' % (what, k))
    # It also evolves as before.
    now = twin_of(pulse)
    chi = np.linspace(0.2, 1., env.size).reshape(env.shape)
    res = []
    for p in (was, now):
        try:
            p.evolve(chi.copy(), 1e23)
            res.append(np.array(p.get_envelope()))
        except Exception as x:
            res.append(repr(x))
    if any(isinstance(x, str) for x in res):
        if res[0] is not res[1] and not (isinstance(res[0], str) and
                                         isinstance(res[1], str)):
            raise Violation('grid', '%s: after the rejected change of %s the '
                            'pulse evolves differently: %s' % (
                                what, k, [x for x in res
                                          if isinstance(x, str)]))
    elif not np.array_equal(res[0], res[1], equal_nan=True):
        raise Violation('grid', '%s: after the rejected change of %s the '
                        'pulse evolves differently' % (what, k))


def twin_of(pulse):
    """Independent copy of a watched pulse, without the watching."""
    p = copy.copy(pulse)
    p.__dict__.pop('evolve', None)
    p.__dict__.pop('set_envelope_solver_params', None)
    return copy.deepcopy(p)


def split(sc, ctx):
    g = sc['bunch']['gamma']
    e = spec(sc, sc['stage'])
    sc['bunch']['w'] = 1e-9
    n = sum(sc['parts'])

    def go(parts):
        pulse = E.build_laser(sc['laser'])
        w = Watch(pulse)
        try:
            bunch = E.build_bunch(sc['bunch'])
            done = 0
            for k in parts:
                L = e['L'] * k / n
                p = dict(e, L=L, dzf=1. / k, dt=1. / k)
                el = shifted(p, e, done, pulse, g)
                E.track(el, p, [bunch])
                done += e['L'] * k / n
        finally:
            w.close()
        return w, bunch
    a, ba = go([n])
    b, bb = go(sc['parts'])
    ctx.sim_time += 2 * e['L'] / ct.c
    ctx.nontrivial()
    ctx.state('split', e['kind'], sc['parts'], sc['laser']['kind'])
    dts = {dt_of(c) for c in a.params + b.params}
    if len(a.evolved) != n or len(b.evolved) != n:
        raise Violation('count', 'pulse advanced %d times in one stage and '
                        '%d times in the stage cut in %s, expected %d' % (
                            len(a.evolved), len(b.evolved), sc['parts'], n))
    if max(dts) - min(dts) > 1e-9 * max(dts):
        raise Violation('length', 'steps %s in a stage cut at updates' % dts)
    if len(dts) > 1:
        # Equal only up to rounding: the solver restarts at the cut.
        ctx.ev('steps differ by rounding')
        return
    for k, (x, y) in enumerate(zip(a.evolved, b.evolved)):
        s = np.abs(x['after']).max()
        d = np.abs(x['after'] - y['after']).max()
        ctx.ev('advance', k, d / s)
        if not d <= 1e-8 * s:
            raise Violation('cut', 'advance %d of %d differs by %.3g when '
                            'the stage is cut in %s' % (
                                k, n, d / s, sc['parts']))


def shifted(p, e, done, pulse, g):
    """Stage whose density continues where the previous part ended. (Rounded
    positions: the quasistatic model amplifies differences in the last
    digit.)"""
    whole = E.density_of(e['dens'], e['L'], [])
    orig = E.density_of
    try:
        E.density_of = lambda d, L, log=None: (
            lambda z: whole(np.round((z + done) / e['L'], 9) * e['L']))
        return E.build(p, laser=pulse, gamma=g)
    finally:
        E.density_of = orig
