"""C15: bunches and parameters survive saving and reading back."""
import os

import h5py
import numpy as np
import scipy.constants as ct

from wake_t.diagnostics import OpenPMDDiagnostics, bunch_analysis as ba
from wake_t.utilities.bunch_saving import save_bunch_to_file
from wake_t.utilities.bunch_generation import get_from_file
from sim import common, elements as E, h5
from sim.common import Violation, bunch_state, same_state, coords
from sim.disk import disk
from sim.props.c10 import classify
from sim.runner import in_child

LEVEL = 'fault_enumeration'
RUNS = dict(quick=1500, thorough=50000)
RULE = ('One seeded scenario per run: 1-5 saves (ASTRA, CSRtrack, openPMD, '
        'plain HDF5, beam parameters, tracking outputs) into one folder, new '
        'names or over an existing file, some of them with storage faults '
        '(ENOSPC, EIO, EACCES, EINTR, short writes; one operation or from '
        'one operation on), repeated after the fault has cleared. What was '
        'saved without error is read back and compared with the bunch; the '
        'bytes of all other files must not change. Directed runs put a '
        'fault on every operation of a save in each format. Non-trivial: '
        'something was read back.')
MEASURE = 'sequence of formats, faults and the operation that was hit'
REAL = ['wake_t saving, reading and analysis', 'APtools', 'openPMD-api, '
        'HDF5, h5py, numpy text output', 'file system']
STUB = ['numba compiler and thread pool', 'wall clock',
        'file-modifying system calls pass through the storage shim']
ASSUMPTIONS = ['no power loss', 'the text formats put a reference particle '
               'in front and know only electrons (CSRtrack) and electrons '
               'and positrons (ASTRA)', 'known finding: a lasting error that '
               'begins only while openPMD-api closes a file is swallowed']
FORMATS = ('astra', 'csrtrack', 'openpmd', 'h5', 'params', 'params-list',
           'tracking')
ERRORS = ('ENOSPC', 'EIO', 'EACCES', 'EINTR', 'SHORT')


def gen_save(r, fmt=None):
    fmt = fmt or r.choice(FORMATS)
    sp = {'csrtrack': ['electron'], 'astra': ['electron', 'positron']}.get(
        fmt, list(common.SPECIES))
    b = E.gen_bunch(r, n=r.choice([1, 2, 3, 7, 40, 300]) if
                    not fmt.startswith('params') else r.choice([30, 60]),
                    species=r.choice(sp))
    s = dict(fmt=fmt, bunch=b, file=r.randrange(3),
             prop=r.random() < 0.5)
    if fmt == 'openpmd':
        s['species_name'] = r.choice([None, None, 'other'])
        s['ext'] = r.random() < 0.5
    if fmt in ('openpmd', 'astra', 'csrtrack', 'tracking'):
        s['name'] = r.choice([None, None, 'renamed'])
    if fmt == 'tracking':
        s['second'] = E.gen_bunch(r, n=3, name='second')
        s['bunch']['name'] = 'first'
        s['element'] = E.gen_element(r, ('fquad', 'fluid', 'cblowout'), 2)
        s['element'].update(n_out=r.choice([1, 2]), L=round(
            10 ** r.uniform(-3.5, -2.5), 7))
        s['two'] = r.random() < 0.5
        if isinstance(s['element']['dt'], list) and not s['two']:
            s['element']['dt'] = s['element']['dt'][0]
    return s


def gen(r, i, tier):
    saves = []
    for _ in range(r.randint(1, 5)):
        s = gen_save(r)
        if r.random() < 0.4 and s['fmt'] != 'tracking':
            s['fault'] = dict(
                at=r.random(), span=r.choice([1, 1, 2, 3, 10**6]),
                kind=r.choice(ERRORS), arg=r.choice([0, 1, 9, 100]),
                ops=r.choice([[], [], ['open'], ['pwrite', 'write'],
                              ['close'], ['ftruncate']]))
        saves.append(s)
    return dict(saves=saves)


def fixed(tier):
    import random
    out = []
    for fmt in ('astra', 'csrtrack', 'openpmd', 'h5', 'params'):
        s = gen_save(random.Random(5), fmt)
        s['bunch'].update(n=40)
        s.update(name=None, species_name=None)
        kinds = ('ENOSPC', 'EIO', 'SHORT') if tier == 'quick' else ERRORS
        for kind in kinds:
            for k in range(1, 31):
                for span in (1, 10**6):
                    out.append(dict(saves=[
                        dict(s, file=1), dict(s, file=0, fault=dict(
                            at_op=k, span=span, kind=kind, arg=9,
                            ops=[]))]))
    return out


def path_of(folder, s):
    base = os.path.join(folder, 'f%d_%s' % (s['file'], s['fmt']))
    return base + {'astra': '.txt', 'csrtrack': '.fmt1', 'openpmd': '.h5',
                   'h5': '.h5', 'params': '.h5', 'params-list': '.h5'
                   }[s['fmt']]


def save(s, bunch, folder):
    """Returns what a reader needs."""
    f = s['fmt']
    p = path_of(folder, s)
    if f in ('astra', 'csrtrack'):
        save_bunch_to_file(bunch, f, p)
    elif f == 'openpmd':
        save_bunch_to_file(bunch, f, p if s.get('ext') else p[:-3],
                           species_name=s.get('species_name'))
    elif f == 'h5':
        ba.save_bunch_to_file(bunch, folder, os.path.basename(p)[:-3])
    elif f == 'params':
        d = ba.analyze_bunch(bunch, n_slices=5)
        ba.save_parameters_to_file(d, folder, os.path.basename(p)[:-3])
        return d
    else:
        other = bunch.copy()
        other.prop_distance += 1.
        d = ba.analyze_bunch_list([bunch, other, bunch], n_slices=5)
        ba.save_parameters_to_file(d, folder, os.path.basename(p)[:-3])
        return d


def close_to(a, b, tol, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b), initial=0.) if scale is None else scale
    return bool(np.all(np.abs(a - b) <= tol * s + 1e-300))


def compare(bunch, got, s, what, tol, ref_particle, z=None):
    """Bunch that was read against the one that was saved."""
    w, c = np.array(bunch.w), coords(bunch)
    if z is not None:
        c[2] = z
    gw, gc = np.array(got.w), coords(got)
    if ref_particle:
        if gw.size != w.size + 1:
            raise Violation('read', '%s: %d particles read, expected %d and '
                            'the reference particle' % (what, gw.size,
                                                        w.size))
        gw, gc = gw[1:], gc[:, 1:]
    if gw.size != w.size:
        raise Violation('read', '%s: %d particles read, %d saved' % (
            what, gw.size, w.size))
    z_avg = float(np.average(c[2], weights=w))
    prop = z_avg if s['prop'] else 0.
    zs = np.max(np.abs(c[2]))
    if not close_to(got.prop_distance, prop, 10 * tol, zs):
        raise Violation('read', '%s: propagation distance %.12g, expected '
                        '%.12g' % (what, got.prop_distance, prop))
    for k, n in enumerate(common.COORDS):
        v = c[k] - z_avg if k == 2 else c[k]
        if not close_to(gc[k], v, 10 * tol, zs if k == 2 else None):
            raise Violation('read', '%s: %s differs by %.3g' % (
                what, n, np.max(np.abs(gc[k] - v))))
    if not close_to(gw, w, tol):
        raise Violation('read', '%s: weights differ' % what)
    if abs(got.q_species / bunch.q_species - 1) > 1e-12 or \
            abs(got.m_species / bunch.m_species - 1) > 1e-12:
        raise Violation('read', '%s: read as another species' % what)
    if s.get('name'):
        if got.name != s['name']:
            raise Violation('read', '%s: named %r' % (what, got.name))
    elif s['fmt'] in ('openpmd', 'tracking'):
        want = s.get('species_name') or bunch.name
        if got.name != want:
            raise Violation('read', '%s: named %r, saved as %r' % (
                what, got.name, want))


def read_back(s, bunch, data, folder, what):
    p = path_of(folder, s)
    f = s['fmt']
    if f in ('astra', 'csrtrack', 'openpmd'):
        got = get_from_file(p, f, preserve_prop_dist=s['prop'],
                            name=s.get('name'))
        compare(bunch, got, s, what, 1e-11 if f != 'openpmd' else 1e-14,
                f != 'openpmd')
    elif f == 'h5':
        with h5py.File(p, 'r') as h:
            for n in common.COORDS + ('q',):
                if not np.array_equal(h[n][()], getattr(bunch, n)):
                    raise Violation('read', '%s: %s differs' % (what, n))
            if h.attrs['prop_dist'] != bunch.prop_distance:
                raise Violation('read', '%s: propagation distance differs'
                                % what)
    else:
        got = ba.read_parameters_from_file(p)
        if sorted(got) != sorted(data):
            raise Violation('read', '%s: parameters %s' % (what,
                                                           sorted(got)))
        for k in data:
            if not np.array_equal(np.asarray(got[k]), np.asarray(data[k]),
                                  equal_nan=True):
                raise Violation('read', '%s: %s is %r instead of %r' % (
                    what, k, got[k], data[k]))


def contents(folder, skip):
    out = {}
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        if os.path.isfile(p) and p != skip:
            with open(p, 'rb') as f:
                out[n] = f.read()
    return out


def tracking(sc, s, folder, ctx):
    """Bunches read from the output of a tracking."""
    bs = [E.build_bunch(s['bunch'])]
    if s['two']:
        bs.append(E.build_bunch(s['second']))
    d = os.path.join(folder, 'diags%d' % len(os.listdir(folder)))
    e = s['element']
    out = E.track(E.build(e, gamma=s['bunch']['gamma']), e, bs,
                  opmd_diag=OpenPMDDiagnostics(d))
    ctx.sim_time += e['L'] / ct.c
    files = h5.series(d)
    for i in range(E.n_outputs(e)):
        t = h5.File(files[i]).time
        if len(bs) > 1:
            try:
                get_from_file(files[i], 'openpmd')
            except ValueError:
                pass
            else:
                raise Violation('read', 'a file with two species was read '
                                'without naming one')
        for j, b in enumerate(bs):
            what = 'tracking output %d, bunch %s' % (i, b.name)
            got = get_from_file(
                files[i], 'openpmd', preserve_prop_dist=s['prop'],
                name=s.get('name'),
                species_name=b.name if len(bs) > 1 else None)
            snap = out[j][i]
            compare(snap, got, s, what, 1e-12, False,
                    z=np.array(snap.xi) + t * ct.c)
            ctx.nontrivial()


def run(sc, ctx):
    d = disk()
    folder = os.path.join(ctx.tmp(), 'saved')
    os.makedirs(folder)
    good = {}
    shape = []
    try:
        for n, s in enumerate(sc['saves']):
            if s['fmt'] == 'tracking':
                shape.append('tracking')
                tracking(sc, s, folder, ctx)
                continue
            one(sc, s, n, folder, good, shape, ctx, d)
    finally:
        d.stop()
    ctx.state(shape)
    for p, (s, bunch, data) in good.items():
        read_back(s, bunch, data, folder, 'at the end, save to %s' %
                  os.path.basename(p))


def faulty(s, bunch, folder, fault, at):
    """Save with a storage fault; returns error, data and operations."""
    d = disk()
    d.watch(folder)
    d.plan(at, at + fault['span'] - 1, fault['kind'], fault['arg'],
           fault['ops'])
    err = data = None
    try:
        data = save(s, bunch, folder)
    except Exception as x:
        err = repr(x)
        del x
    log = d.log()
    d.clear()
    d.stop()
    return err, data, log


def one(sc, s, n, folder, good, shape, ctx, d):
    bunch = E.build_bunch(s['bunch'])
    state = bunch_state(bunch)
    p = path_of(folder, s)
    fault = s.get('fault')
    what = 'save %d (%s)' % (n, s['fmt'])
    others = contents(folder, p)
    hits, log, err, data = [], [], None, None
    if fault is not None:
        dry = os.path.join(ctx.tmp(), 'dry%d' % n)
        os.makedirs(dry)
        d.watch(dry)
        save(s, bunch, dry)
        ops = d.nops
        d.stop()
        at = fault.get('at_op') or 1 + int(fault['at'] * ops)
        # In a process of its own: HDF5 does not recover from a failed close.
        st, val = in_child(lambda: faulty(s, bunch, folder, fault, at), 60.)
        if st == 'ok':
            err, data, log = val
        else:
            err, log = 'died', []
        hits = [o for o in log if o['fault']]
        if hits:
            ctx.fault('%s:%s' % (hits[0]['fault'], hits[0]['op']), len(hits))
            what += ', %s at %s' % (hits[0]['fault'], hits[0]['op'])
    else:
        data = save(s, bunch, folder)
    if err is not None and err != 'died' and not hits:
        raise Violation('save', '%s raised %s' % (what, err))
    shape.append((s['fmt'], err is not None, [
        (i, o['op'], o['fault']) for i, o in enumerate(log)
        if o['fault']][:1]))
    ctx.ev(what, err is not None)
    good.pop(p, None)
    if same_state(state, bunch_state(bunch)):
        raise Violation('changed', '%s changed the bunch' % what)
    if contents(folder, p) != others:
        raise Violation('damaged', '%s changed other files' % what)
    if err is None:
        try:
            read_back(s, bunch, data, folder, what)
            good[p] = (s, bunch, data)
            ctx.nontrivial()
        except Exception as x:
            if hits and s['fmt'] == 'openpmd' and classify(log) == 'close' \
                    and ctx.known('error-while-closing-file-swallowed'):
                ctx.fault('known:close-error-swallowed')
            elif isinstance(x, Violation) or not hits:
                raise
            else:
                raise Violation('swallowed', '%s succeeded but cannot be '
                                'read: %r' % (what, x))
    if hits or err is not None:
        # The fault has cleared: saving again works.
        data = save(s, bunch, folder)
        read_back(s, bunch, data, folder, what + ', repeated')
        good[p] = (s, bunch, data)
        ctx.nontrivial()
        if contents(folder, p) != others:
            raise Violation('damaged', '%s, repeated, changed other files'
                            % what)
