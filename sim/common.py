"""Building blocks shared by the property checks: probes (public-API
subclasses that record what the real code does), synthetic fields that exist
both as Wake-T fields and as reference-model fields, and generators."""
import hashlib
import math
from fractions import Fraction as F

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import ParticleBunch
from wake_t.fields.numerical_field import NumericalField
from wake_t.fields.analytical_field import AnalyticalField
from wake_t.beamline_elements.field_element import FieldElement
from numba import prange

from sim import model


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind, self.msg = kind, msg


class StepBudget(Exception):
    """Raised by a probe when the code under test makes no progress."""


# ------------------------------------------------------------------ bunches
SPECIES = {
    'electron': (-ct.e, ct.m_e),
    'positron': (ct.e, ct.m_e),
    'proton': (ct.e, ct.m_p),
    'muon': (-ct.e, 206.768*ct.m_e),
    'ion': (3*ct.e, 11650*ct.m_e),
}


def bunch_arrays(spec, length):
    """Phase space of a bunch from its JSON specification."""
    r = np.random.RandomState(spec['seed'])
    n = spec['n']
    s = spec.get('scale', 1e-3) * length
    g = spec['gamma']
    off = spec.get('xi_off', 0.) * length
    x = r.normal(size=n) * s
    y = r.normal(size=n) * s
    xi = r.normal(size=n) * s * 0.1 + off
    px = r.normal(size=n) * g * 1e-3
    py = r.normal(size=n) * g * 1e-3
    pz = g * (1 + 0.01 * r.normal(size=n))
    w = r.uniform(0.5, 1.5, size=n) * 1e6
    return w, x, y, xi, px, py, pz


class SimBunch(ParticleBunch):
    """A bunch that records every push it receives."""
    pushes = None
    budget = None
    hook = None
    auto_now = None          # adaptive step as a function of the bunch
    auto_at = None           # its value at the beginning of every push

    def evolve(self, *a, **k):
        names = ['fields', 't', 'dt', 'pusher']
        args = dict(zip(names, a))
        args.update(k)
        if self.auto_now is not None:
            self.auto_at.append(self.auto_now(self))
        if self.pushes is not None:
            self.pushes.append((float(args['t']), float(args['dt'])))
            if self.budget is not None and len(self.pushes) > self.budget:
                raise StepBudget('bunch %s: more than %d pushes'
                                 % (self.name, self.budget))
        if self.hook is not None:
            self.hook('push', self)
        return super().evolve(*a, **k)

    def copy(self):
        if self.hook is not None:
            self.hook('copy', self)
        return super().copy()


def make_bunch(spec, length, cls=None, budget=20000):
    w, x, y, xi, px, py, pz = bunch_arrays(spec, length)
    q, m = SPECIES[spec.get('species', 'electron')]
    z_inj = spec.get('z_inj')
    b = (cls or SimBunch)(
        w=w, x=x, y=y, xi=xi, px=px, py=py, pz=pz,
        prop_distance=spec.get('prop', 0.) * length,
        z_injection=None if z_inj is None else z_inj * length,
        name=spec.get('name'), q_species=q, m_species=m,
        tags=np.arange(spec['n']) if spec.get('tags') else None)
    if isinstance(b, SimBunch):
        b.pushes, b.budget = [], budget
    return b


def ref_bunch(spec, length):
    w, *c = bunch_arrays(spec, length)
    q, m = SPECIES[spec.get('species', 'electron')]
    z_inj = spec.get('z_inj')
    return model.RefBunch(w, *c, q, m, spec.get('prop', 0.) * length,
                          None if z_inj is None else z_inj * length)


COORDS = ('x', 'y', 'xi', 'px', 'py', 'pz')


def coords(b):
    return np.array([getattr(b, c) for c in COORDS])


def bunch_state(b):
    """Everything about a bunch that later tracking may depend on."""
    return {
        'coords': coords(b), 'w': np.array(b.w),
        'prop': float(b.prop_distance), 'x_ref': float(b.x_ref),
        'theta_ref': float(b.theta_ref), 'q': float(b.q_species),
        'm': float(b.m_species), 'name': b.name,
        'z_inj': None if b.z_injection is None else float(b.z_injection),
        'tags': None if b.tags is None else np.array(b.tags),
    }


def digest_state(s):
    h = hashlib.sha1()
    for k in sorted(s):
        v = s[k]
        h.update(k.encode())
        h.update(v.tobytes() if isinstance(v, np.ndarray) else
                 repr(v).encode())
    return h.hexdigest()[:16]


def same_state(a, b, keys=None):
    """Bitwise comparison; returns the list of differing entries."""
    bad = []
    for k in (keys or a):
        u, v = a[k], b[k]
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            if not (isinstance(u, np.ndarray) and isinstance(v, np.ndarray)
                    and u.shape == v.shape
                    and np.array_equal(u, v, equal_nan=True)):
                bad.append(k)
        elif u != v and not (u is None and v is None):
            bad.append(k)
    return bad


def close_state(a, b, length, rtol=1e-9, skip=()):
    """Comparison up to rounding, scaled per coordinate."""
    bad = []
    for k in a:
        if k in skip:
            continue
        u, v = a[k], b[k]
        if k == 'coords':
            e = coord_error(u, v, length)
            if not e < rtol:
                bad.append('coords(%.2e)' % e)
        elif isinstance(u, float) and isinstance(v, float):
            if not abs(u-v) <= rtol * max(abs(u), abs(v), length, 1e-300):
                bad.append(k)
        elif same_state({k: u}, {k: v}):
            bad.append(k)
    return bad


def coord_error(u, v, length):
    """Largest coordinate difference relative to the scale of the motion."""
    if u.shape != v.shape:
        return float('inf')
    if u.size == 0:
        return 0.
    p = max(np.max(np.abs(u[3:])), np.max(np.abs(v[3:])), 1e-300)
    g = np.sqrt(1 + p**2)
    sx = max(np.max(np.abs(u[:3])), length * 1e-3,
             length * min(1., np.max(np.abs(u[3:5])) / g))
    d = np.abs(u - v)
    if not np.all(np.isfinite(d)):
        return 0. if (np.array_equal(u, v, equal_nan=True)) else float('inf')
    return float(max(np.max(d[:3]) / sx, np.max(d[3:]) / p))


# ------------------------------------------------------------------- fields
class RefField:
    """Reference twin of a synthetic field (see SimField, ana_field)."""
    period = None
    source = None

    def __init__(self, spec, T):
        self.s, self.T = spec, T
        self.coef = (0., 0., 0.)
        self.n = 0

    def ref_update(self, bunches, t):
        self.coef = coupled(self, field_coefficients(
            self.s, bunches, t, self.T, self.n))
        self.n += 1

    def ref_gather(self, x, y, xi, t):
        return field_values(self.s, self.coef, x, y, xi, t, self.T)


def field_coefficients(s, bunches, t, T, n):
    """State of a synthetic numerical field after update number n at local
    time t: depends on all bunches, the time and the update count."""
    mx = sum(float(np.mean(b.x)) for b in bunches) / s['xs']
    mp = sum(float(np.mean(b.pz)) for b in bunches)
    nb = sum(len(b.x) for b in bunches)
    mp = mp / (1. + abs(mp))
    return (s['a'] * mx + s['b'] * np.cos(3. * t / T),
            s['c'] + s['d'] * np.sin(1. + n) + 0.3 * s['d'] * mp,
            s['e'] * (1 + 0.1 * np.sin(nb + 2. * t / T)))


def coupled(field, coef):
    """A field may depend on the state of another one (`source`)."""
    if field.source is None:
        return coef
    a, b, c = field.source.coef
    return (coef[0] + 0.5 * b, coef[1] + 0.4 * a, coef[2] - 0.3 * c)


def couple(sc, fields, kind):
    """Let numerical fields depend on each other if the scenario says so."""
    num = [f for f in fields if isinstance(f, kind)]
    for j in sc.get('couple', []):
        if j + 1 < len(num):
            num[j].source, num[j + 1].source = None, num[j]


def field_values(s, coef, x, y, xi, t, T):
    """(6, N) field of a synthetic field (in units set by the unit field)."""
    e0, k, ez = coef
    u = s['unit']
    tm = np.cos(s['w'] * t / T)
    out = np.zeros((6, len(x)))
    out[0] = u * (e0 + k * x / s['xs'])
    out[1] = u * (k * y / s['xs'] * tm)
    out[2] = u * (ez * tm + 0.1 * e0)
    out[3] = u / ct.c * (0.2 * k * y / s['xs'])
    out[4] = u / ct.c * (0.3 * e0 + 0.1 * k * x / s['xs'])
    out[5] = u / ct.c * (0.2 * ez)
    return out


class SimField(NumericalField):
    """Numerical field driven by the real tracker."""
    budget = 20000
    source = None

    def __init__(self, spec, T, dt, even, hook=None):
        super().__init__(dt_update=dt, force_even_updates=even)
        self.s, self.T = spec, T
        self.updates = []        # (local clock, per-bunch (prop, digest))
        self.coef = (0., 0., 0.)
        self.hook = hook
        self.total = 0

    def _initialize_properties(self, bunches):
        # A field (re)starts from scratch at the beginning of a tracking.
        self.n_since_start = 0

    def _calculate_field(self, bunches):
        self.total += 1
        if self.total > self.budget:
            raise StepBudget('field: more than %d updates' % self.budget)
        if self.hook is not None:
            self.hook('update', self)
        self.coef = coupled(self, field_coefficients(
            self.s, bunches, self.t, self.T, self.n_since_start))
        self.n_since_start += 1
        self.updates.append(
            (float(self.t), [float(b.prop_distance) for b in bunches]))

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        if self.hook is not None:
            self.hook('gather', self)
        v = field_values(self.s, self.coef, x, y, z, t, self.T)
        for a, f in zip((ex, ey, ez, bx, by, bz), v):
            a += f


def ana_ex(x, y, z, t, ex, c):
    for i in prange(x.shape[0]):
        ex[i] += c[0] * (c[3] + c[4] * x[i] / c[2]) * np.cos(c[1] * t)


def ana_ey(x, y, z, t, ey, c):
    for i in prange(x.shape[0]):
        ey[i] += c[0] * c[4] * y[i] / c[2] * np.cos(c[1] * t)


def ana_ez(x, y, z, t, ez, c):
    for i in prange(x.shape[0]):
        ez[i] += c[0] * c[5] * np.cos(c[1] * t)


def ana_bx(x, y, z, t, bx, c):
    for i in prange(x.shape[0]):
        bx[i] += c[0] * c[6] * y[i] / c[2]


def ana_by(x, y, z, t, by, c):
    for i in prange(x.shape[0]):
        by[i] += c[0] * c[7] * np.sin(c[1] * t)


def ana_bz(x, y, z, t, bz, c):
    for i in prange(x.shape[0]):
        bz[i] += c[0] * c[8] * np.cos(c[1] * t)


class RefAna:
    period = None

    def __init__(self, s, T):
        self.c = ana_constants(s, T)

    def ref_gather(self, x, y, xi, t):
        c = self.c
        out = np.zeros((6, len(x)))
        out[0] = c[0] * (c[3] + c[4] * x / c[2]) * np.cos(c[1] * t)
        out[1] = c[0] * c[4] * y / c[2] * np.cos(c[1] * t)
        out[2] = c[0] * c[5] * np.cos(c[1] * t)
        out[3] = c[0] * c[6] * y / c[2]
        out[4] = c[0] * c[7] * np.sin(c[1] * t)
        out[5] = c[0] * c[8] * np.cos(c[1] * t)
        return out


def ana_constants(s, T):
    return [s['unit'], s['w'] / T, s['xs'], s['a'], s['c'], s['e'],
            0.5 * s['c'] / ct.c, 0.2 * s['b'] / ct.c,
            0.3 * s['e'] / ct.c]


def ana_field(s, T):
    return AnalyticalField(e_x=ana_ex, e_y=ana_ey, e_z=ana_ez, b_x=ana_bx,
                           b_y=ana_by, b_z=ana_bz,
                           constants=ana_constants(s, T))


# ------------------------------------------------- field-element scenarios
def frac(v):
    return F(v[0], v[1])


def auto_steps(table, length):
    """Adaptive step as a deterministic function of the propagation distance;
    returns (function for Wake-T, function for the model)."""
    k = len(table)

    def index(frac_pos):
        i = int(math.floor(frac_pos * k + 1./1009))
        return table[min(max(i, 0), k-1)]

    def ref(b, p0):
        return frac(index((b.prop - p0) / length))
    return index, ref


def fe_units(sc):
    L = sc['length']
    return L, L / ct.c


def gen_fe(rng, swarm=None):
    """Random field-based element with bunches, fields and outputs."""
    r = rng
    L = 10 ** r.uniform(-4, 0.5)
    if r.random() < 0.3:
        L = r.choice([1e-3, 0.01, 0.1, 1.0, 0.3, 0.7, 2.5e-2])
    nb = r.choice([0, 1, 1, 1, 2, 2, 3])
    nf = r.choice([0, 1, 1, 2, 3])
    na = r.choice([0, 0, 1])
    common = r.random() < 0.5
    base_q = r.choice([2, 3, 4, 5, 6, 8, 10, 12])

    def rate(lo=0.02, hi=1.6):
        m = r.random()
        if r.random() < 0.04:
            # Just short of (or just over) a divisor of the element.
            e = r.choice([10**3, 10**4, 10**5])
            return [e + r.choice([-1, -1, 1]), e * r.randint(1, 6)]
        if common and m < 0.6:
            return [r.randint(1, base_q + 1), base_q * r.choice([1, 1, 2])]
        if m < 0.75:
            return [1, r.randint(1, 24)]
        q = r.randint(7, 41)
        p = max(1, int(q * r.uniform(lo, hi)))
        return [p, q]
    bunches = []
    for i in range(nb):
        auto = r.random() < 0.35
        sp = r.choice(['electron', 'electron', 'positron', 'proton', 'muon',
                       'ion'])
        b = dict(n=r.choice([1, 1, 2, 3, 5]), seed=r.randrange(10**6),
                 gamma=10 ** r.uniform(0.7, 3.7), species=sp,
                 name='b%d' % i, prop=0. if r.random() < .6 else
                 r.uniform(-1, 3))
        if auto:
            b['auto'] = [rate(0.05, 1.2) for _ in range(r.randint(1, 5))]
        else:
            b['dt'] = rate()
        if r.random() < 0.2:
            # injection position relative to the start of the bunch
            b['z_inj'] = b['prop'] + r.uniform(-0.2, 1.3)
        bunches.append(b)
    if nb > 1 and r.random() < 0.25:
        # Names need not be unique (as long as nothing is written).
        for b in bunches:
            b['name'] = 'same'
    fields = []
    for j in range(nf):
        fields.append(dict(kind='num', dt=rate(), even=r.random() < 0.4,
                           **field_numbers(r)))
    for j in range(na):
        fields.insert(r.randint(0, len(fields)),
                      dict(kind='ana', **field_numbers(r)))
    return dict(length=L, bunches=bunches, fields=fields,
                n_out=r.choice([0, 1, 1, 2, 3, 4, 5, 7, 11]),
                push_before=r.random() < 0.6,
                pusher=r.choice(['boris', 'rk4']))


def field_numbers(r):
    return dict(a=r.uniform(-.3, .3), b=r.uniform(-.3, .3),
                c=r.uniform(-.5, .5), d=r.uniform(-.5, .5),
                e=r.uniform(-.2, .2), w=r.uniform(0, 9.))


def field_spec(sc, f):
    """Scale the field numbers to the units of the scenario: a field of one
    unit changes the momentum by about 5 % of the smallest gamma over T."""
    L, T = fe_units(sc)
    g = min([b['gamma'] for b in sc['bunches']] or [100.])
    sp = [SPECIES[b.get('species', 'electron')] for b in sc['bunches']]
    k = max([abs(q / m) for q, m in sp] or [ct.e / ct.m_e]) / ct.c
    s = dict(f)
    s['unit'] = 0.02 * g / (k * T)
    s['xs'] = 1e-3 * L
    return s


def period_of(f):
    p = frac(f['dt'])
    if f['even']:
        p = F(1) / F(math.ceil(F(1) / p))
    return p


def build_fe(sc, hook=None, n_out=None, cls=None):
    """Real objects of a field-element scenario."""
    L, T = fe_units(sc)
    fields = []
    for f in sc['fields']:
        s = field_spec(sc, f)
        if f['kind'] == 'num':
            # A hair longer, so that rounding does not add an even update.
            dt = float(frac(f['dt'])) * T * (1 + 1e-12 * f['even'])
            fields.append(SimField(s, T, dt, f['even'], hook))
        else:
            fields.append(ana_field(s, T))
    couple(sc, fields, SimField)
    bunches = [make_bunch(b, L, cls) for b in sc['bunches']]
    if hook is not None:
        for b in bunches:
            b.hook = hook
    dts, table = [], {}
    for b, o in zip(sc['bunches'], bunches):
        if 'auto' in b:
            dts.append('auto')
            idx, _ = auto_steps(b['auto'], L)
            table[id(o)] = (idx, o.prop_distance)
            o.auto_now = lambda b, idx=idx, p0=o.prop_distance: float(
                frac(idx((b.prop_distance - p0) / L))) * T
            o.auto_at = []
        else:
            dts.append(float(frac(b['dt'])) * T)

    def auto(bunch):
        if id(bunch) not in table:
            return 1.7 * T      # not a bunch with adaptive step
        idx, p0 = table[id(bunch)]
        v = float(frac(idx((bunch.prop_distance - p0) / L))) * T
        if getattr(bunch, 'auto_log', None) is None:
            bunch.auto_log = []
        bunch.auto_log.append((len(bunch.pushes or ()), v))
        return v
    from sim.elements import FE_DEFAULTS, given
    el = FieldElement(
        length=L, dt_bunch=dts, name='sim', fields=fields,
        auto_dt_bunch=auto, **given(
            FE_DEFAULTS, bunch_pusher=sc['pusher'],
            n_out=sc['n_out'] if n_out is None else n_out,
            push_bunches_before_diags=sc['push_before']))
    return el, bunches, fields


def run_ref(sc, n_out=None):
    L, T = fe_units(sc)
    fields = []
    for f in sc['fields']:
        s = field_spec(sc, f)
        if f['kind'] == 'num':
            rf = RefField(s, T)
            rf.period = period_of(f)
            fields.append(rf)
        else:
            fields.append(RefAna(s, T))
    couple(sc, fields, RefField)
    bunches = [ref_bunch(b, L) for b in sc['bunches']]
    steps = []
    for b in sc['bunches']:
        if 'auto' in b:
            steps.append(auto_steps(b['auto'], L)[1])
        else:
            steps.append(frac(b['dt']))
    return model.RefRun(
        L, bunches, steps, fields, sc['n_out'] if n_out is None else n_out,
        sc['pusher'], sc['push_before']).run()


class RealField:
    """A real Wake-T field driven by the reference model."""

    def __init__(self, field, T):
        self.f, self.T = field, T
        self.period = None
        if isinstance(field, NumericalField):
            dt = F(field.dt_update) / F(T)
            field.adjust_dt(T)
            if field.force_even_updates:
                self.period = F(1, math.ceil(1 / dt * (1 - F(1, 10**12))))
                field.dt_update = float(self.period) * T
            else:
                n = round(1 / dt * 840)
                near = F(840, n) if n else dt
                # Periods such as L/3 are not exact in floating point.
                self.period = near if abs(near - dt) < dt / 10**12 else dt

    def ref_update(self, bunches, t):
        self.f.update([b.real() for b in bunches])

    def ref_gather(self, x, y, xi, t):
        out = np.zeros((6, len(x)))
        a = [np.ascontiguousarray(v) for v in (x, y, xi)]
        # Wake-T gathers the fields one after the other into arrays that
        # were reset to zero.
        self.f.gather(*a, t, *out)
        return out


class RealFieldSet:
    """All fields of a real element, gathered in order (some analytical
    fields assign instead of adding, so the order is part of the model)."""
    period = None

    def __init__(self, fields):
        self.fields = fields

    def ref_gather(self, x, y, xi, t):
        out = np.zeros((6, len(x)))
        a = [np.ascontiguousarray(v) for v in (x, y, xi)]
        for f in self.fields:
            f.gather(*a, t, *out)
        return out


class RealRefBunch(model.RefBunch):
    name = None

    def real(self):
        b = ParticleBunch(self.w, *self.X.copy(), q_species=self.q,
                          m_species=self.m, prop_distance=self.prop,
                          name=self.name)
        return b


class _NoGather:
    """Numerical field whose gathering is done by a RealFieldSet."""

    def __init__(self, rf):
        self.rf, self.period = rf, rf.period

    def ref_update(self, bunches, t):
        self.rf.ref_update(bunches, t)

    def ref_gather(self, x, y, xi, t):
        return 0.


def real_ref(el, L, bunch_specs, arrays, dts, n_out, pusher, before,
             fields=None):
    """Reference run through the fields of the (fresh) real element `el`, or
    through the given reference fields."""
    T = L / ct.c
    if fields is None:
        nums = [_NoGather(RealField(f, T)) for f in el.fields
                if isinstance(f, NumericalField)]
        fields = nums + [RealFieldSet(el.fields)]
    bunches = []
    for s, (w, *c) in zip(bunch_specs, arrays):
        q, m = SPECIES[s.get('species', 'electron')]
        rb = RealRefBunch(w, *c, q, m, s.get('prop', 0.), s.get('z_inj'))
        rb.name = s.get('name')
        bunches.append(rb)
    steps = []
    for d in dts:
        if d == 'auto':
            steps.append(lambda b, p0: F(float(el.auto_dt_bunch(b.real())))
                         / F(T))
        else:
            steps.append(F(d).limit_denominator(1000))
    return model.RefRun(L, bunches, steps, fields, n_out, pusher, before).run()


def track_list(el, bunches, **kw):
    """track() with the shape of the result normalised to one list per
    bunch."""
    out = el.track(list(bunches), show_progress_bar=False, **kw)
    if len(bunches) == 1:
        out = [out]
    return out


class Order:
    """Records the global order of pushes, updates and copies, and can call
    another hook (fault injection)."""

    def __init__(self, then=None):
        self.seq = []
        self.names = {}
        self.then = then

    def __call__(self, kind, obj):
        k = self.names.setdefault(id(obj), len(self.names))
        if kind != 'gather':
            self.seq.append((kind[0], k))
        if self.then is not None:
            self.then(kind, obj)


def check_pushes(b, L, step, auto_log, tol=5e-7):
    """Contiguity, coverage and size of the pushes of one bunch in one
    element of length L; step in seconds or None if adaptive."""
    T = L / ct.c
    t = 0.
    j = 0
    cur = step
    for k, (tp, dt) in enumerate(b.pushes):
        if abs(tp - t) > tol * T:
            raise Violation('gap', 'bunch %s push %d starts at %.9g T, '
                            'previous ended at %.9g T' % (
                                b.name, k, tp / T, t / T))
        if dt < -tol * T:
            raise Violation('backwards', 'bunch %s push %d has dt=%.3g T'
                            % (b.name, k, dt / T))
        if step is None:
            while j < len(auto_log) and auto_log[j][0] <= k:
                cur = auto_log[j][1]
                j += 1
            if b.auto_at and b.auto_at[k] is not None:
                # Computed for the bunch as it is now.
                cur = min(cur, b.auto_at[k])
        if dt > cur * (1 + 1e-6) + tol * T:
            raise Violation('step-too-long', 'bunch %s push %d: %.9g T > step '
                            '%.9g T' % (b.name, k, dt / T, cur / T))
        t += dt
    if abs(t - T) > tol * T:
        raise Violation('wrong-duration', 'bunch %s pushed for %.9g of the '
                        'element duration' % (b.name, t / T))


def edge_length(r):
    """A length whose duration sits on a rounding edge of float32 times."""
    f = np.float32(10 ** r.uniform(-13, -8))
    g = np.nextafter(f, np.float32(1))
    t = 0.5 * (float(f) + float(g))
    for _ in range(r.randint(0, 4)):
        t = float(np.nextafter(t, r.choice([0., 1.])))
    return t * ct.c


def spy_auto(el, documented=None):
    """Record the adaptive steps an element computes, per bunch, and compare
    them with the documented step."""
    orig = el.auto_dt_bunch

    def auto(bunch):
        v = orig(bunch)
        want = documented(bunch) if documented is not None else None
        if want is not None and not abs(v - want) <= 0.02 * want:
            raise Violation('auto-step', 'automatic step %.6g s, documented '
                            '%.6g s' % (v, want))
        if getattr(bunch, 'auto_log', None) is None:
            bunch.auto_log = []
        bunch.auto_log.append((len(bunch.pushes), float(v)))
        return v
    if orig is not None:
        el.auto_dt_bunch = auto
        auto.orig = orig


def auto_of(el):
    """The function computing the adaptive step, without the recording."""
    return getattr(el.auto_dt_bunch, 'orig', el.auto_dt_bunch)
