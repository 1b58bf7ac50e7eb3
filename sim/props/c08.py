"""C08: written openPMD output is a faithful, continuous record of the run."""
import os

import numpy as np
import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.fields.numerical_field import NumericalField
from sim import common, elements as E, h5
from sim.common import Violation, SPECIES, bunch_state

LEVEL = 'exploration'
RUNS = dict(quick=2500, thorough=40000)
RULE = ('One seeded scenario per run: 1-4 elements of all types, one or two '
        'bunches, tracked with openPMD output as a (nested) beamline, or '
        'element by element with one shared diagnostics object; the files '
        'are read back with plain h5py and compared with the snapshots the '
        'tracking returned, with field values gathered from the live fields '
        'when the output was taken, and with positions computed from the '
        'element lengths. Duplicate bunch names must be rejected leaving '
        'earlier files alone. Non-trivial: at least two files.')
MEASURE = 'sequence of element kinds, outputs per element and way of tracking'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['files are compared with the values in memory to 1e-12']


def gen(r, i, tier):
    nb = r.choice([1, 1, 1, 2])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.8:
        kinds.remove('qs')
    if r.random() < 0.4:
        kinds = ['fluid'] + [k for k in kinds if k in ('drift', 'qs')]
    n = r.randint(1, 4)
    els = [E.gen_element(r, kinds, nb, csr=0.1) for _ in range(n)]
    if all(E.n_outputs(e) == 0 for e in els):
        els[0]['n_out'] = 1
    for e in els:
        if 'laser' in e and r.random() < 0.3 and 'grid' in e:
            e['subgrid'] = [r.choice([12, 20]), r.choice([10, 14])]
    cuts = []
    for _ in range(r.choice([0, 0, 1, 2])):
        a = r.randrange(n)
        cuts.append([a, r.randint(a + 1, n)])
    names = r.sample(['bunch', 'b', 'driver', 'witness_1', 'e', 'e_', '_e',
                      'E', 'b.1', 'b-1', 'my bunch', '0', 'weighting'], nb)
    if r.random() < 0.1:
        names = [None] * nb
    dup = nb > 1 and r.random() < 0.25
    way = r.choice(['beamline', 'object', 'manual', 'manual-true'])
    for e in els:
        if E.is_tm(e) and 'manual' in way and r.random() < 0.3:
            e['initial'] = True
    return dict(bunches=[E.gen_bunch(r, n=r.choice([1, 2, 3, 5]) if not any(
                    e.get('csr') for e in els) else 3, name='x') | dict(
                        name=names[j]) for j in range(nb)],
                elements=els, nest=cuts, dup=dup,
                way=way,
                stale=r.random() < 0.2,
                chdir=r.random() < 0.15, reverse=r.random() < 0.3,
                deep=r.choice(['', '', 'a', 'a/b c']))


def nodal_fields(field, grid):
    """E and B of a field on the grid nodes, obtained as a particle would
    feel them; None if it is not a field on a grid."""
    if grid is None or not isinstance(field, NumericalField):
        return None
    dr = grid['rmax'] / grid['nr']
    r = np.linspace(dr / 2, grid['rmax'] - dr / 2, grid['nr'])[:-1]
    z = np.linspace(grid['xmin'], grid['xmax'], grid['nxi'])[1:-1]
    R, Z = np.meshgrid(r, z, indexing='ij')
    x = np.ascontiguousarray(R.ravel())
    zz = np.ascontiguousarray(Z.ravel())
    out = np.zeros((6, x.size))
    field.gather(x, np.zeros_like(x), zz, 0., *out)
    return out.reshape(6, *R.shape)


class Recorder:
    """Wraps write_diagnostics of every diagnostics object: notes what the
    fields look like at that moment."""

    def __init__(self, grids):
        self.writes = []
        self.grids = grids         # per expected output
        self.orig = OpenPMDDiagnostics.write_diagnostics
        self.orig_update = NumericalField.update
        self.updated = {}          # what a field looked like when updated
        self.n_updates = 0
        rec = self

        def update(self, *a, **k):
            rec.orig_update(self, *a, **k)
            rec.n_updates += 1
            rec.updated[id(self)] = (self, charge_density(self))

        def write(self, *a, **k):
            args = dict(zip(('time', 'dt', 'species_list', 'fields'), a))
            args.update(k)
            i = len(rec.writes)
            grid = rec.grids[i] if i < len(rec.grids) else None
            fl = [(f, nodal_fields(f, grid))
                  for f in args.get('fields') or []]
            env = [(None if getattr(f, 'laser', None) is None else
                    np.array(f.laser.get_envelope())) for f, _ in fl]
            rho = [rec.updated.get(id(f), (None, None))[1] for f, _ in fl]
            n = rec.n_updates
            rec.orig(self, *a, **k)
            rec.writes.append((fl, env, rho, n))
        OpenPMDDiagnostics.write_diagnostics = write
        NumericalField.update = update

    def close(self):
        OpenPMDDiagnostics.write_diagnostics = self.orig
        NumericalField.update = self.orig_update


def charge_density(f):
    if not hasattr(f, 'n_p') or not hasattr(f, 'rho'):
        return None
    return f.rho.T[2:-2, 2:-2] * f.n_p * (-ct.e)


def expected(els, nb):
    """(element index, output index, global position) in order of time."""
    out = []
    z = 0.
    for k, e in enumerate(els):
        n = e['n_out'] or 0
        first = 1 if E.is_tm(e) and not e.get('initial') else 0
        if n == 0 and e.get('initial'):
            out.append((k, 0, z))
        if n > 0:
            for j in range(first, n + 1):
                out.append((k, j - first, z + e['L'] * j / n))
        z += e['L']
    return out


def run(sc, ctx):
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    g = sc['bunches'][0]['gamma']
    folder = os.path.join(ctx.tmp(), sc.get('deep', ''), 'diags')
    bunches = [E.build_bunch(b) for b in sc['bunches']]
    for b, s in zip(bunches, sc['bunches']):
        s['name'] = b.name
    els = sc['elements']
    exp = expected(els, len(bunches))
    rec = Recorder([els[k].get('grid') for k, _, _ in exp])
    try:
        with E.guard(els, sc['bunches'], bunches, g):
            snaps = go(sc, els, bunches, folder, g, ctx.tmp())
    finally:
        rec.close()
    ctx.sim_time += E.total_length(els) / ct.c
    files = h5.series(folder)
    if len(exp) > 1:
        ctx.nontrivial()
    ctx.state([(e['kind'], e['n_out']) for e in els], sc['way'], sc['nest'])
    if sorted(files) != list(range(len(exp))):
        raise Violation('numbering', '%d outputs expected, files %s' % (
            len(exp), sorted(files)))
    last = None
    for i, (k, j, z) in enumerate(exp):
        f = h5.File(files[i])
        e = els[k]
        what = 'file %d (output %d of element %d, %s)' % (i, j, k, e['kind'])
        ctx.ev(what, f.time)
        if f.index != i:
            raise Violation('numbering', '%s holds iteration %d' % (
                what, f.index))
        if abs(f.time * ct.c - z) > 1e-6 * e['L'] + 1e-12 * z:
            raise Violation('time', '%s: time corresponds to z=%.9g, expected '
                            '%.9g' % (what, f.time * ct.c, z))
        if not e.get('csr') and e['n_out'] and not near(
                f.dt * ct.c, e['L'] / e['n_out'], 1e-9):
            raise Violation('time', '%s: time step corresponds to %.9g m, '
                            'outputs are %.9g m apart' % (
                                what, f.dt * ct.c, e['L'] / e['n_out']))
        check_units(f, what)
        check_species(f, snaps[k], j, what, sc)
        if len(rec.writes) == len(exp):
            check_fields(f, rec.writes[i], e, what)
            same = (k, rec.writes[i][3])
            if last is not None and last[0] == same:
                for m in sorted(set(f.fields) | set(last[1])):
                    if m not in f.fields or m not in last[1] or not \
                            np.array_equal(f.fields[m], last[1][m],
                                           equal_nan=True):
                        raise Violation(
                            'fields', '%s: %s changed since the previous '
                            'output without an update of the field' % (
                                what, m))
            last = (same, f.fields)
    if sc['dup']:
        duplicate(sc, els, folder, g, len(exp), ctx)


def go(sc, els, bunches, folder, g, root):
    """Track; returns snapshots[element][bunch][output]."""
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    reset_csr_calculator()
    nb = len(bunches)
    objs = [E.build(e, gamma=g) for e in els]
    for o in objs:
        if sc.get('reverse') and len(getattr(o, 'fields', ())) > 1:
            # (Fields add up.)
            o.fields = list(o.fields)[::-1]
    place = folder

    def move(k):
        pass
    if sc.get('chdir'):
        # A folder relative to where the object was made; the program then
        # changes its working directory.
        os.chdir(root)
        place = os.path.relpath(folder, root)

        def move(k):
            d = os.path.join(root, 'elsewhere%d' % k)
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
    arg = bunches[0] if nb == 1 else bunches
    if sc['stale']:
        # A leftover of an earlier run in the same place.
        os.makedirs(os.path.join(folder, 'hdf5'))
        with open(os.path.join(folder, 'hdf5', 'data00000000.h5'), 'wb') as f:
            f.write(b'\x00garbage' * 999)
    if sc['way'] in ('beamline', 'object'):
        diag = OpenPMDDiagnostics(place) if sc['way'] == 'object' else True
        kw = {} if sc['way'] == 'object' else dict(diag_dir=place)
        if sc['way'] == 'object':
            move(0)
        flat = Beamline(E.nested(objs, sc['nest'])).track(
            arg, opmd_diag=diag, show_progress_bar=False, **kw)
        out = []
        pos = 0
        for e in els:
            n = E.n_outputs(e)
            if nb == 1:
                out.append([flat[pos:pos + n]])
                pos += n
            else:
                out.append(flat[pos:pos + nb])
                pos += nb
        if pos != len(flat):
            raise Violation('outputs', 'beamline returned %d items, '
                            'expected %d' % (len(flat), pos))
        return out
    if sc['way'] == 'manual-true' and len(els) == 1:
        return [E.track(objs[0], els[0], bunches, opmd_diag=True,
                        diag_dir=place, **E.initial(els[0]))]
    diag = OpenPMDDiagnostics(place)
    out = []
    for k, (o, e) in enumerate(zip(objs, els)):
        move(k)
        out.append(E.track(o, e, bunches, opmd_diag=diag, **E.initial(e)))
    return out


def near(a, b, tol=1e-12):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(b)):
        return np.array_equal(a, b, equal_nan=True) or \
            np.allclose(a, b, rtol=1e-9, equal_nan=True)
    s = np.max(np.abs(b))
    return bool(np.all(np.abs(a - b) <= tol * np.abs(b) + 1e-15 * s))


# Powers of length, mass, time, current, ... of the records.
DIMENSIONS = dict(E=(1, 1, -3, -1), B=(0, 1, -2, -1), rho=(-3, 0, 1, 1),
                  position=(1,), positionOffset=(1,), momentum=(1, 1, -1),
                  charge=(0, 0, 1, 1), mass=(0, 1), weighting=())

# Whether a record holds the value of the macroparticle (1) or of one of its
# particles (0), and the power of the weight between the two.
WEIGHTING = dict(position=(0, 0), positionOffset=(0, 0), momentum=(0, 1),
                 charge=(0, 1), mass=(0, 1), weighting=(1, 1))


def check_units(f, what):
    for name, dim in f.units.items():
        want = DIMENSIONS.get(name.split('/')[-1])
        if want is not None and dim != tuple(want) + (0,) * (7 - len(want)):
            raise Violation('units', '%s: dimension of %s is %s' % (
                what, name, dim))
    for name, got in f.weights.items():
        want = WEIGHTING.get(name.split('/')[-1])
        if want is not None and got != want:
            raise Violation('units', '%s: weighting of %s is %s' % (
                what, name, got))


def check_species(f, snaps, j, what, sc):
    names = [s['name'] for s in sc['bunches']]
    if sorted(f.species) != sorted(names):
        raise Violation('species', '%s: species %s, bunches %s' % (
            what, sorted(f.species), sorted(names)))
    for b, s in enumerate(sc['bunches']):
        snap = snaps[b][j]
        d = f.species[s['name']]
        q, m = SPECIES[s['species']]
        st = bunch_state(snap)['coords']
        want = dict(x=st[0], y=st[1], z=st[2], px=st[3] * m * ct.c,
                    py=st[4] * m * ct.c, pz=st[5] * m * ct.c,
                    weighting=snap.w)
        for k, v in want.items():
            if not near(d[k], v):
                raise Violation('particles', '%s, %s: %s in the file is %s, '
                                'snapshot %s' % (what, s['name'], k,
                                                 d[k][:4], v[:4]))
        for k, v in (('charge', q), ('mass', m)):
            if not np.all(np.abs(d[k] - v) <= 1e-12 * abs(v)):
                raise Violation('species-data', '%s, %s: %s %s, expected %s'
                                % (what, s['name'], k, d[k], v))
        z = f.time * ct.c
        for k, v in (('off_x', 0.), ('off_y', 0.), ('off_z', z)):
            if not np.all(np.abs(d[k] - v) <= 1e-12 * abs(v)):
                raise Violation('offset', '%s, %s: %s is %s, expected %.12g'
                                % (what, s['name'], k, d[k], v))


def check_fields(f, write, e, what):
    fl, env, rho, _ = write
    grids = [(x, y, en, rh) for (x, y), en, rh in zip(fl, env, rho)
             if y is not None]
    if not grids:
        if f.fields:
            raise Violation('fields', '%s: unexpected meshes %s' % (
                what, sorted(f.fields)))
        return
    field, val, en, rh = grids[-1]
    gr = e['grid']
    nr, nz = gr['nr'], gr['nxi']
    # At y = 0 the x direction is r and the y direction theta.
    want = {'E/r': val[0], 'E/t': val[1], 'E/z': val[2],
            'B/r': val[3], 'B/t': val[4], 'B/z': val[5]}
    for k, v in want.items():
        if k not in f.fields:
            raise Violation('fields', '%s: no %s in the file (%s)' % (
                what, k, sorted(f.fields)))
        a = f.fields[k]
        if a.shape != (1, nr, nz):
            raise Violation('fields', '%s: shape of %s is %s' % (
                what, k, a.shape))
        a = a[0][:-1, 1:-1]
        s = max(np.max(np.abs(v)), 1e-300)
        if not np.all(np.isfinite(v)):
            continue
        if np.max(np.abs(a - v)) > 1e-7 * s:
            raise Violation('fields', '%s: %s in the file differs from the '
                            'field acting on particles by %.2e (relative)' % (
                                what, k, np.max(np.abs(a - v)) / s))
    if rh is not None:
        if not near(f.fields['rho'][0], rh, 1e-9):
            raise Violation('fields', '%s: charge density differs' % what)
    dr, dz = gr['rmax'] / nr, (gr['xmax'] - gr['xmin']) / (nz - 1)
    for k, m in f.mesh.items():
        if m['labels'] != ['r', 'z'] or not near(
                m['spacing'], [dr, dz], 1e-9):
            raise Violation('grid', '%s: grid of %s is %s' % (what, k, m))
        if abs(m['offset'][1] - (f.time * ct.c + gr['xmin'])) > 1e-9 * (
                abs(f.time * ct.c) + abs(gr['xmin'])) or \
                abs(m['offset'][0]) > dr:
            raise Violation('grid', '%s: offset of %s is %s' % (
                what, k, m['offset']))
    if en is not None:
        ph = np.angle(en.T)
        for k, v in (('a', en.T), ('a_mod', np.abs(en.T)), ('a_phase', ph)):
            if k not in f.fields or not near(f.fields[k][0], v, 1e-9):
                raise Violation('laser', '%s: %s in the file differs from '
                                'the envelope' % (what, k))
        l = e['laser']
        om = [m['omega'] for m in f.mesh.values() if m['omega'] is not None]
        pol = [m['pol'] for m in f.mesh.values() if m['pol'] is not None]
        if not om or any(abs(v * l['l0'] / (2 * np.pi * ct.c) - 1) > 1e-9
                         for v in om):
            raise Violation('laser', '%s: angular frequency %s, wavelength '
                            '%g' % (what, om, l['l0']))
        # The polarization of a sum of pulses is not kept by Wake-T.
        if l['kind'] != 'sum' and (not pol or any(
                h5._text(v) != l['pol'] for v in pol)):
            raise Violation('laser', '%s: polarization %s, expected %s' % (
                what, pol, l['pol']))


def duplicate(sc, els, folder, g, n_before, ctx):
    """Two bunches of the same name: rejected, earlier files untouched."""
    e = next((x for x in els if not E.is_tm(x) and x['n_out'] > 0), None)
    if e is None:
        return
    if isinstance(e['dt'], list):
        e = dict(e, dt=e['dt'][0])
    before = {k: h5.digest(h5.content(p))
              for k, p in h5.series(folder).items()}
    bunches = [E.build_bunch(dict(b, name='same')) for b in sc['bunches']]
    ctx.fault('duplicate-name')
    other = os.path.join(ctx.tmp(), 'dup')
    if len(bunches) == 2:
        # The two bunches of the same name need not be next to each other.
        bunches.insert(1, E.build_bunch(dict(sc['bunches'][0],
                                             name='between')))
    for target in (folder, other):
        raised = False
        try:
            E.build(e, gamma=g).track(
                bunches, opmd_diag=OpenPMDDiagnostics(target),
                show_progress_bar=False)
        except ValueError:
            raised = True
        if not raised:
            raise Violation('duplicate', 'two bunches called "same" were '
                            'accepted')
    # Rejected as well by a diagnostics object that has written good outputs.
    late = os.path.join(ctx.tmp(), 'late')
    diag = OpenPMDDiagnostics(late)
    E.build(e, gamma=g).track(E.build_bunch(sc['bunches'][0]),
                              opmd_diag=diag, show_progress_bar=False)
    good = sorted(h5.series(late))
    try:
        E.build(e, gamma=g).track(bunches, opmd_diag=diag,
                                  show_progress_bar=False)
    except ValueError:
        pass
    else:
        raise Violation('duplicate', 'two bunches called "same" were '
                        'accepted after %d good outputs' % len(good))
    if sorted(h5.series(late)) != good:
        raise Violation('duplicate', 'a rejected call wrote a file')
    after = {k: h5.digest(h5.content(p))
             for k, p in h5.series(folder).items()}
    if before != after:
        raise Violation('duplicate', 'a rejected call changed earlier files')
    if h5.series(other):
        raise Violation('duplicate', 'a rejected call wrote a file')
