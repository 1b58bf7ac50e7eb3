"""Generator and builder of real beamline elements and bunches from JSON."""
import contextlib
import math

import numpy as np
import scipy.constants as ct

from wake_t import (ParticleBunch, Beamline, Drift, Dipole, Quadrupole,
                    Sextupole, PlasmaStage, PlasmaRamp, ActivePlasmaLens,
                    GaussianPulse)
from wake_t.beamline_elements import FieldQuadrupole
from wake_t.beamline_elements.tm_elements import TMElement
from wake_t.beamline_elements.field_element import FieldElement
from wake_t.physics_models.laser.laser_pulse import (
    LaguerreGaussPulse, FlattenedGaussianPulse)

from sim import common
from sim.common import SPECIES, SimBunch, SimField

TM_KINDS = ('drift', 'dipole', 'quad', 'sext', 'tm')
EXT_KINDS = ('fquad', 'apl', 'fe', 'blowout', 'fblowout', 'cblowout', 'ramp')
WF_KINDS = ('fluid', 'qs', 'apl_wf')
FIELD_KINDS = EXT_KINDS + WF_KINDS
ALL_KINDS = TM_KINDS + FIELD_KINDS


# ------------------------------------------------------------------ bunches
def gen_bunch(r, n=None, name=None, **kw):
    b = dict(n=n or r.choice([1, 2, 3, 5, 8]), seed=r.randrange(10**6),
             gamma=round(10 ** r.uniform(1.7, 3.6), 3),
             sx=round(10 ** r.uniform(-6, -4.5), 9),
             sxi=round(10 ** r.uniform(-6.5, -5.3), 9),
             xi0=round(r.uniform(-30e-6, -12e-6), 9),
             div=round(10 ** r.uniform(-5, -3.3), 7),
             spread=round(10 ** r.uniform(-4, -2), 6),
             w=round(10 ** r.uniform(4, 7)),
             species=r.choice(['electron', 'electron', 'electron',
                               'positron', 'proton', 'muon', 'ion']),
             name=name or r.choice(['bunch', 'b', 'witness', 'elec_bunch_0']))
    if r.random() < 0.5:
        b['tags'] = True
    if r.random() < 0.3:
        b['prop'] = round(r.uniform(-0.5, 2.), 6)
    if r.random() < 0.2:
        b['outliers'] = True
    b.update(kw)
    return b


def namer(r, prob=0.2):
    """Names of bunches that are not written to file: not always unique."""
    if r.random() < prob:
        return lambda j: 'same'
    return lambda j: 'b%d' % j


def bunch_arrays(b):
    r = np.random.RandomState(b['seed'])
    n, g = b['n'], b['gamma']
    x = r.normal(size=n) * b['sx']
    y = r.normal(size=n) * b['sx']
    xi = r.normal(size=n) * b['sxi'] + b['xi0']
    pz = g * (1 + b['spread'] * r.normal(size=n))
    px = r.normal(size=n) * b['div'] * g
    py = r.normal(size=n) * b['div'] * g
    w = r.uniform(0.2, 1.8, size=n) * b['w']
    if b.get('outliers'):
        # Particles in front of, behind and outside every field box.
        k = r.randint(0, n)
        kind = r.randint(0, 4)
        if kind == 0:
            xi[k] = 300e-6
        elif kind == 1:
            xi[k] = -900e-6
        elif kind == 2:
            x[k] = 1e-3
        else:
            y[k] = -2e-3
            xi[k] = 40e-6
    return w, x, y, xi, px, py, pz


def build_bunch(b, cls=ParticleBunch):
    w, x, y, xi, px, py, pz = bunch_arrays(b)
    q, m = SPECIES[b.get('species', 'electron')]
    bunch = cls(w=w, x=x, y=y, xi=xi, px=px, py=py, pz=pz,
                prop_distance=b.get('prop', 0.),
                z_injection=b.get('z_inj'), name=b.get('name'),
                q_species=q, m_species=m,
                tags=np.arange(b['n'])[::-1] * 3 + 7 if b.get('tags')
                else None)
    if isinstance(bunch, SimBunch):
        bunch.pushes, bunch.budget = [], 50000
    return bunch


# ----------------------------------------------------------------- elements
def gen_steps(r, L, nb, auto=True):
    """dt_bunch argument, in units of L/c (numbers) or 'auto'."""
    def one():
        if auto and r.random() < 0.5:
            return 'auto'
        return r.choice([1., 0.5, 0.25, 0.2, 0.3, 0.34, 0.7, 1.4, 0.1])
    if nb > 1 and r.random() < 0.5:
        return [one() for _ in range(nb)]
    return one()


def gen_density(r):
    n0 = round(10 ** r.uniform(22., 23.7), -18)
    k = r.choice(['const', 'const', 'linear', 'cos'])
    return dict(kind=k, n0=n0, a=round(r.uniform(-0.6, 0.6), 3))


def density_of(d, L, log=None):
    n0, a = d['n0'], d['a']
    if d['kind'] == 'const' and log is None:
        return float(n0)

    def f(z):
        if log is not None and np.ndim(z) == 0:
            log.append(float(z))
        u = z / L
        if d['kind'] == 'const':
            return np.ones_like(u) * n0
        if d['kind'] == 'linear':
            return n0 * (1 + a * np.clip(u, -0.5, 1.5))
        return n0 * (1 + a * np.cos(3 * u))
    return f


def gen_laser(r):
    k = r.choice(['gauss', 'gauss', 'lg', 'flat', 'sum'])
    return dict(kind=k, a0=round(r.uniform(0.3, 1.8), 3),
                w0=round(r.uniform(12e-6, 22e-6), 9),
                tau=round(r.uniform(12e-15, 30e-15), 18),
                l0=r.choice([0.8e-6, 0.8e-6, 1.03e-6]),
                xi=-15e-6, pol=r.choice(['linear', 'circular']),
                zf=round(r.uniform(-0.5e-3, 0.5e-3), 7))


def build_laser(l):
    kw = given(LASER_DEFAULTS, l_0=l['l0'], polarization=l['pol'],
               z_foc=l['zf'])
    if l['kind'] == 'lg':
        return LaguerreGaussPulse(l['xi'], 1, l['a0'], l['w0'], l['tau'],
                                  **kw)
    if l['kind'] == 'flat':
        return FlattenedGaussianPulse(l['xi'], l['a0'], l['w0'], l['tau'],
                                      N=3, **kw)
    g = GaussianPulse(l['xi'], l['a0'], l['w0'], l['tau'], **kw)
    if l['kind'] == 'sum':
        g = g + GaussianPulse(l['xi'] - 12e-6, 0.3 * l['a0'], l['w0'],
                              l['tau'], **kw)
    return g


def gen_element(r, kinds=ALL_KINDS, nb=1, csr=0.1, small=True):
    kind = r.choice(kinds)
    e = dict(kind=kind)
    if kind in TM_KINDS:
        e['L'] = round(10 ** r.uniform(-2, 0), 6)
        if r.random() < 0.3:
            e['L'] = r.choice([0.05, 0.1, 0.3, 0.7, 1.0, 0.2])
        e['n_out'] = r.choice([None, None, 1, 2, 3, 4, 5, 7, 11])
        e['order'] = r.choice([1, 2, 2])
        e['gref'] = r.choice([None, None, 1.])
        if kind in ('dipole', 'tm'):
            e['theta'] = round(r.uniform(-0.15, 0.15), 5)
            if r.random() < 0.15:
                e['theta'] = 0.
        if kind in ('quad', 'tm'):
            e['k1'] = round(r.uniform(-20, 20), 4)
        if kind in ('sext', 'tm'):
            e['k2'] = round(r.uniform(-100, 100), 4)
        if kind == 'tm' and r.random() < 0.3:
            e[r.choice(['theta', 'k1', 'k2'])] = 0.
        if r.random() < csr:
            e['csr'] = True
        return e
    e['pusher'] = r.choice(['boris', 'boris', 'rk4'])
    e['n_out'] = r.choice([0, 1, 1, 2, 3, 4, 5])
    if r.random() < 0.06:
        e['n_out'] = r.choice([6, 8, 9, 10, 13])
    e['L'] = round(10 ** r.uniform(-4, -2.6), 9)
    e['dt'] = gen_steps(r, e['L'], nb)
    if kind in ('fquad', 'apl'):
        e['L'] = round(10 ** r.uniform(-3, -1), 9)
        e['g'] = round(r.uniform(-600, 600), 3) or 100.
    if kind == 'fe':
        e['L'] = round(10 ** r.uniform(-4, -1), 9)
        e['dt'] = gen_steps(r, e['L'], nb, auto=False)
        e['fields'] = [dict(kind=r.choice(['num', 'ana', 'zero']),
                            dt=r.choice([[1, 1], [1, 2], [1, 3], [2, 7],
                                         [3, 2], [1, 5]]),
                            even=r.random() < 0.3, **common.field_numbers(r))
                       for _ in range(r.choice([0, 1, 1, 2]))]
        e['before'] = r.random() < 0.6
    if kind in ('blowout', 'fblowout', 'cblowout', 'fluid', 'qs', 'apl_wf'):
        e['dens'] = gen_density(r)
        e['before'] = r.random() < 0.6
        e['ext'] = r.random() < 0.2
    if kind in ('blowout', 'cblowout'):
        e['laser'] = gen_laser(r)
        if kind == 'blowout':
            e['laser']['kind'] = 'gauss'
    if kind == 'cblowout':
        e['cb'] = [round(r.uniform(-2e9, 2e9)), round(r.uniform(-1e13, 1e13)),
                   round(r.uniform(1e4, 4e5))]
    if kind == 'ramp':
        e['profile'] = r.choice(['inverse_square', 'exponential', 'gaussian',
                                 'custom'])
        e['type'] = r.choice(['upramp', 'downramp'])
        e['top'] = round(10 ** r.uniform(22.5, 23.5), -19)
        e['down'] = e['top'] * r.choice([0.05, 0.1, 0.3])
        if r.random() < 0.4:
            e['dens'] = None
            e['decay'] = round(e['L'] * r.uniform(0.2, 1.), 9)
        elif r.random() < 0.4:
            e['pos'] = r.choice([0.3, 0.6, 1.5])
        e['wf'] = r.choice(['focusing_blowout'] * 3 + ['cold_fluid_1d'])
    if kind in WF_KINDS or e.get('wf') == 'cold_fluid_1d':
        e['L'] = round(10 ** r.uniform(-4, -3.2), 9)
        e['grid'] = gen_grid(r, kind)
        e['dzf'] = r.choice([1., 0.5, 1/3., 0.4, 0.23, 1.7])
        if kind != 'qs' and r.random() < 0.5:
            e['bw'] = True
        if kind in ('fluid', 'qs') and r.random() < 0.3:
            e['laser'] = gen_laser(r)
            e['evol'] = r.random() < 0.8
            e['sub'] = r.choice([1, 1, 2, 3])
    return e


def gen_grid(r, kind):
    if kind == 'qs':
        return dict(nxi=r.choice([8, 11, 14]), nr=r.choice([6, 8]),
                    rmax=40e-6, xmin=-50e-6, xmax=r.choice([0., 5e-6]),
                    ppc=r.choice([1, 2]), pp=r.choice(['rk4', 'ab5']),
                    shape=r.choice(['linear', 'cubic']),
                    rp=r.choice([None, None, 30e-6, 60e-6]),
                    par=r.choice([None, None, 'const', 'linear']),
                    mg=r.choice([None, None, 5, 20]))
    return dict(nxi=r.choice([10, 17, 24]), nr=r.choice([8, 12]), rmax=40e-6,
                xmin=-50e-6, xmax=r.choice([0., 5e-6]),
                shape=r.choice(['linear', 'cubic']))


def dt_arg(e):
    T = e['L'] / ct.c

    def one(v):
        return v if v == 'auto' else v * T
    d = e['dt']
    return [one(v) for v in d] if isinstance(d, list) else one(d)


def fe_field_spec(f, L):
    s = dict(f)
    # A moderate kick: 2 % of gamma = 100 over the element for an electron.
    s['unit'] = 0.02 * 100 / (ct.e / (ct.m_e * ct.c) * L / ct.c)
    s['xs'] = 2e-5
    return s


def given(defaults, **kw):
    """Keyword arguments without those that have their default value."""
    return {k: v for k, v in kw.items()
            if k not in defaults or type(v) is not type(defaults[k])
            or v != defaults[k]}


TM_DEFAULTS = dict(theta=0., k1=0., k2=0., gamma_ref=None, csr_on=False,
                   n_out=None, order=2)
FE_DEFAULTS = dict(bunch_pusher='boris', n_out=1,
                   push_bunches_before_diags=True)
EL_DEFAULTS = dict(FE_DEFAULTS, dt_bunch='auto', external_fields=[])
LASER_DEFAULTS = dict(z_foc=0., l_0=0.8e-6, polarization='linear')


def dz_fields(e):
    if e['dzf'] is None:
        return e['grid']['xmax'] - e['grid']['xmin']
    # Periods that divide the length have to do it without rounding.
    f = e['dzf'] * e['L']
    return f if e['dzf'] in (1., 0.5, 0.25) else f * (1 + 1e-12)


def wf_params(e, laser=None, log=None):
    g = e['grid']
    p = dict(r_max=g['rmax'], xi_min=g['xmin'], xi_max=g['xmax'],
             n_r=g['nr'], n_xi=g['nxi'], p_shape=g['shape'])
    if e['dzf'] is not None:
        p.update(dz_fields=dz_fields(e))
    if e['kind'] in ('qs',):
        p.update(ppc=g['ppc'], plasma_pusher=g['pp'])
        if g.get('rp'):
            p.update(r_max_plasma=g['rp'])
        if g.get('mg'):
            p.update(max_gamma=g['mg'])
        if g.get('par'):
            p.update(parabolic_coefficient=channel_of(g, e['L'], log))
    elif e.get('bw'):
        p.update(beam_wakefields=True)
    if laser is not None:
        p.update(laser=laser, laser_evolution=e.get('evol', True),
                 laser_envelope_substeps=e.get('sub', 1))
        if not e.get('phase', True):
            p.update(laser_envelope_use_phase=False)
        if e.get('subgrid'):
            p.update(laser_envelope_nxi=e['subgrid'][0],
                     laser_envelope_nr=e['subgrid'][1])
    return p


def channel_of(g, L, log=None):
    """Parabolic coefficient of a plasma channel, a number or a profile."""
    c = 0.3 / g['rmax']**2
    if g['par'] == 'const' and log is None:
        return c

    def f(z):
        if log is not None:
            log.append(float(z))
        return c * (1 + (g['par'] == 'linear') * np.clip(z / L, -1., 2.))
    return f


def build(e, laser=None, hook=None, log=None, n_out='spec', gamma=None,
          channel_log=None):
    """Real element from its specification.

    laser: pulse object to use instead of building one; hook: called by the
    synthetic fields; log: list receiving the scalar arguments of the density
    function (channel_log: of the channel profile); n_out: override."""
    k = e['kind']
    no = e['n_out'] if n_out == 'spec' else n_out
    if k in TM_KINDS:
        gref = e.get('gref')
        kw = given(
            TM_DEFAULTS, length=e['L'], n_out=no, order=e.get('order', 2),
            gamma_ref=None if gref is None else gref * (gamma or 500.),
            csr_on=bool(e.get('csr')),
            **{s: e[s] for s in ('theta', 'k1', 'k2') if s in e})
        return dict(drift=Drift, dipole=Dipole, quad=Quadrupole,
                    sext=Sextupole, tm=TMElement)[k](**kw)
    dt = dt_arg(e)
    if k == 'fquad':
        return FieldQuadrupole(e['L'], e['g'], **given(
            EL_DEFAULTS, dt_bunch=dt, bunch_pusher=e['pusher'], n_out=no))
    if k == 'apl':
        return ActivePlasmaLens(e['L'], e['g'], **given(
            EL_DEFAULTS, dt_bunch=dt, bunch_pusher=e['pusher'], n_out=no,
            push_bunches_before_diags=e.get('before', True)))
    if k == 'fe':
        T = e['L'] / ct.c
        fields = []
        for f in e['fields']:
            s = fe_field_spec(f, e['L'])
            if f['kind'] == 'num':
                fields.append(SimField(s, T, f['dt'][0] / f['dt'][1] * T,
                                       f['even'], hook))
            elif f['kind'] == 'ana':
                fields.append(common.ana_field(s, T))
            else:
                fields.append(common.ana_field(dict(s, unit=0.), T))
        return FieldElement(e['L'], dt, name='fe', **given(
            dict(FE_DEFAULTS, fields=[]), bunch_pusher=e['pusher'], n_out=no,
            fields=fields, push_bunches_before_diags=e['before']))
    common_kw = given(EL_DEFAULTS, dt_bunch=dt, bunch_pusher=e['pusher'],
                      n_out=no)
    if k == 'ramp':
        kw = dict(wakefield_model=e['wf'])
        if 'grid' in e:
            kw.update(wf_params(e))
        if 'decay' in e:
            kw.update(decay_length=e['decay'])
        else:
            kw.update(plasma_dens_down=e['down'])
            if e.get('pos'):
                kw.update(position_down=e['pos'] * e['L'])
        profile = e['profile']
        if log is not None or profile == 'custom':
            profile = logged_profile(profile, [] if log is None else log)
        kw = given(dict(wakefield_model='focusing_blowout', ramp_type='upramp',
                        profile='inverse_square'),
                   profile=profile, ramp_type=e['type'], **kw)
        return PlasmaRamp(e['L'], plasma_dens_top=e['top'], **kw, **common_kw)
    dens = density_of(e['dens'], e['L'], log)
    if not e.get('before', True):
        common_kw['push_bunches_before_diags'] = False
    if laser is None and 'laser' in e:
        laser = build_laser(e['laser'])
    if k == 'apl_wf':
        return ActivePlasmaLens(
            e['L'], 300., wakefields=True, density=dens,
            wakefield_model='cold_fluid_1d', **wf_params(e), **common_kw)
    ext = []
    if e.get('ext'):
        from wake_t.physics_models.em_fields.linear_b_theta import \
            LinearBThetaField
        ext = [LinearBThetaField(-250.)]
    if ext:
        common_kw['external_fields'] = ext
    if k == 'blowout':
        return PlasmaStage(e['L'], dens, 'simple_blowout', laser=laser,
                           **common_kw)
    if k == 'cblowout':
        return PlasmaStage(e['L'], dens, 'custom_blowout', laser=laser,
                           lon_field=e['cb'][0], lon_field_slope=e['cb'][1],
                           foc_strength=e['cb'][2], xi_fields=-2e-5,
                           **common_kw)
    if k == 'fblowout':
        return PlasmaStage(e['L'], dens, 'focusing_blowout', **common_kw)
    model = {'fluid': 'cold_fluid_1d', 'qs': 'quasistatic_2d'}[k]
    return PlasmaStage(e['L'], dens, model,
                       **wf_params(e, laser, channel_log), **common_kw)


def custom_profile(z, decay_length, density_top, density_down,
                   position_down):
    if decay_length is not None:
        return density_top / (1 + np.abs(z) / decay_length)
    return density_top + (density_down - density_top) * np.clip(
        z / position_down, -0.2, 1.)


def logged_profile(name, log):
    from wake_t.beamline_elements.plasma_ramp import ramp_profiles
    f = custom_profile if name == 'custom' else ramp_profiles[name]

    def profile(z, decay_length, density_top, density_down, position_down):
        if np.ndim(z) == 0:
            log.append(float(z))
        return f(z, decay_length=decay_length, density_top=density_top,
                 density_down=density_down, position_down=position_down)
    return profile


def plasma_density(e, z):
    """Independent density at z from the beginning of the element."""
    L = e['L']
    if e['kind'] != 'ramp':
        return density_of(dict(e['dens']), L, [])(z)
    d = L - z if e['type'] == 'upramp' else z
    top = e['top']
    if 'decay' in e:
        s = d / e['decay']
        if e['profile'] == 'custom':
            return top / (1 + np.abs(s))
        return {'inverse_square': top * (1 + s)**-2.,
                'exponential': top * np.exp(-s),
                'gaussian': top * np.exp(-0.5 * s * s)}[e['profile']]
    # From the top density to the given density at the given place.
    f = e['down'] / top
    u = d / (L * e.get('pos', 1.))
    if e['profile'] == 'custom':
        return top * (1 - (1 - f) * np.minimum(np.maximum(u, -0.2), 1.))
    return {'inverse_square': top * (1 + u * (f**-0.5 - 1))**-2.,
            'exponential': top * f**u,
            'gaussian': top * f**(u * u)}[e['profile']]


class ReferenceField:
    """Documented fields of an external-field element."""
    period = None

    def __init__(self, e):
        self.e = e

    def ref_gather(self, x, y, xi, t):
        e, k = self.e, self.e['kind']
        z = ct.c * t
        zero = np.zeros_like(x)
        if k == 'fquad':
            return np.array([zero, zero, zero, -e['g'] * y, -e['g'] * x,
                             zero])
        if k == 'apl':
            # b_theta = g r in the direction that focuses electrons.
            return np.array([zero, zero, zero, e['g'] * y, -e['g'] * x, zero])
        ez = zero
        if k in ('fblowout', 'ramp'):
            n = plasma_density(e, z + xi)
        else:
            n = plasma_density(e, z)
        grad = n * ct.e / (2 * ct.epsilon_0)
        if k in ('blowout', 'cblowout'):
            # The wake follows the laser, which slips in the moving window.
            wp = np.sqrt(n * ct.e**2 / (ct.m_e * ct.epsilon_0))
            k0 = 2 * np.pi * ct.c / e['laser']['l0']
            vg = k0 / np.sqrt(k0**2 + wp**2)
            s = xi + (1 - vg) * z
            if k == 'blowout':
                ez = grad * (s + np.pi * ct.c / wp - e['laser']['xi'])
            else:
                grad = ct.c * e['cb'][2]
                ez = e['cb'][0] + e['cb'][1] * (s + 2e-5)
        out = np.array([grad * x, grad * y, ez, zero, zero, zero])
        if e.get('ext'):
            out[3] += 250. * y
            out[4] -= 250. * x
        return out


def documented_step(e, b):
    """A tenth of the inverse of the fastest betatron frequency, or None if
    the element has no automatic step."""
    k = e['kind']
    if not (np.all(np.isfinite(b.pz)) and np.all(b.pz > 0)):
        return None
    g = math.hypot(1., float(np.min(b.pz)))
    if k in ('fquad', 'apl'):
        grad = e['g']
    elif k == 'fe':
        return None
    else:
        n = max(float(plasma_density(e, z))
                for z in np.linspace(0., e['L'], 201))
        grad = n * ct.e / (2 * ct.epsilon_0 * ct.c)
    w2 = abs(b.q_species / b.m_species) * ct.c * abs(grad) / g
    return 0.1 / math.sqrt(w2)


def is_tm(e):
    return e['kind'] in TM_KINDS


def n_outputs(e):
    """Number of snapshots an element returns per bunch."""
    n = e['n_out']
    if is_tm(e):
        return n or 0
    return n + 1 if n > 0 else 0


def tm_args(e):
    """Keyword arguments both families understand."""
    return dict(show_progress_bar=False)


def initial(e):
    """Keyword arguments of transfer-map elements with initial output."""
    return dict(out_initial=True) if e.get('initial') else {}


class Unphysical(Exception):
    """The scenario destroys the bunch (non-finite coordinates); nothing but
    termination is claimed for it."""


def track(el, e, bunches, **kw):
    """Track and return one list of snapshots per bunch."""
    kw.setdefault('show_progress_bar', False)
    if is_tm(e):
        assert len(bunches) == 1
        if not e.get('csr'):
            return [el.track(bunches[0], **kw)]
        before = common.bunch_state(bunches[0])
        try:
            return [el.track(bunches[0], **kw)]
        except (ValueError, np.linalg.LinAlgError):
            if lost_without_csr(e, before):
                raise Unphysical(e['kind'])
            raise
    try:
        out = el.track(list(bunches), **kw)
    except ValueError:
        if all(np.all(np.isfinite(common.coords(b))) for b in bunches):
            raise
        raise Unphysical(e['kind'])
    return [out] if len(bunches) == 1 else out


def lost_without_csr(e, state):
    """Would the bunch be lost in this element even without CSR?"""
    b = ParticleBunch(state['w'].copy(), *state['coords'].copy(),
                      q_species=state['q'], m_species=state['m'], name='x')
    b.x_ref, b.theta_ref = state['x_ref'], state['theta_ref']
    g = float(np.mean(state['coords'][5]))
    n = 20
    part = dict(e, csr=False, n_out=n)
    out = build(part, gamma=g).track(b, show_progress_bar=False)
    return not all(usable([o]) for o in out)


def total_length(es):
    return math.fsum(e['L'] for e in es)


def nested(els, cuts):
    """Group elements into nested beamlines: cuts = list of [start, end]."""
    out = list(els)
    for a, b in sorted(cuts, reverse=True):
        if 0 <= a < b <= len(out):
            out[a:b] = [Beamline(out[a:b])]
    return out


def usable(bunches):
    """False if a bunch has been lost: non-finite or backwards particles.
    (Scenarios end there: nothing is claimed about such bunches except that
    tracking terminates.)"""
    for b in bunches:
        c = common.coords(b)
        if not np.all(np.isfinite(c)) or not np.all(c[5] > 1.):
            return False
        if np.max(np.abs(c[:3])) > 10.:
            return False
    return True


@contextlib.contextmanager
def guard(els, specs, bunches, gamma):
    """Around a tracking through several elements: an error caused by a
    destroyed bunch ends the scenario."""
    try:
        yield
    except (ValueError, np.linalg.LinAlgError):
        if not all(np.all(np.isfinite(common.coords(b))) for b in bunches):
            raise Unphysical('lost')
        if any(e.get('csr') for e in els) and len(specs) == 1:
            b = build_bunch(specs[0])
            for e in els:
                if not usable([b]):
                    raise Unphysical('lost')
                if is_tm(e):
                    out = build(dict(e, csr=False, n_out=20), gamma=gamma
                                ).track(b, show_progress_bar=False)
                    if not all(usable([o]) for o in out):
                        raise Unphysical('lost')
                else:
                    track(build(e, gamma=gamma), e, [b])
        raise
