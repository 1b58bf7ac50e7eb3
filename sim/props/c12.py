"""C12: a failed or interrupted tracking leaves the process usable."""
import os
import sys

import scipy.constants as ct

import wake_t
from wake_t import Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E, h5, kernels
from sim.common import Violation, bunch_state, same_state
from sim.props.c07 import RaisingLog
from sim.runner import in_child

LEVEL = 'fault_enumeration'
RUNS = dict(quick=2500, thorough=40000)
RULE = ('One seeded scenario per run: elements are tracked (one by one or as '
        'a beamline, with or without written output and progress bar) until '
        'an exception of a random type is raised at a random point: the n-th '
        'push, copy, field update, gather, density evaluation or output, or '
        'the n-th line executed inside particles, fields, physics models or '
        'diagnostics (interrupt delivered by a trace function). Then the '
        'exception object, thread setting, bystander bunches, earlier '
        'snapshots and files are checked and new bunches are tracked, which '
        'must give the result of a process forked before the failure. '
        'Non-trivial: the exception was raised inside tracking.')
MEASURE = 'element kinds, kind of exception, place (function) it was raised in'
REAL = ['wake_t (whole package, kernels as Python)', 'openPMD-api, HDF5']
STUB = ['numba compiler and thread pool (thread setting simulated)',
        'wall clock', 'signal delivery (exception raised by trace function)']
ASSUMPTIONS = ['no interrupt inside the few lines that change or restore the '
               'thread setting themselves']
EXC = ('KeyboardInterrupt', 'Boom', 'MemoryError', 'OSError',
       'KeyError', 'ZeroDivisionError', 'TypeError', 'AttributeError',
       'SystemExit', 'ValueError', 'IndexError')
WHERE = ('push', 'copy', 'update', 'gather', 'density', 'write', 'line')


class Boom(Exception):
    pass


def make_exc(name):
    import builtins
    return (Boom if name == 'Boom' else getattr(builtins, name))('injected')


def gen(r, i, tier):
    nb = r.choice([1, 1, 2])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.9:
        kinds.remove('qs')
    if r.random() < 0.3:
        kinds = ['fe', 'fluid', 'cblowout']
    els = [E.gen_element(r, kinds, nb, csr=0.15)
           for _ in range(r.randint(1, 3))]
    for e in els:
        if e['kind'] in ('fluid', 'qs'):
            e.pop('laser', None)
        if e['kind'] == 'qs':
            e['grid'].update(nxi=8, nr=6, ppc=1)

    def bunches(n=0):
        return [E.gen_bunch(r, n=r.choice([3, 4, 6]), outliers=False,
                            name='b%d' % j) for j in range(nb)]
    where = r.choice(WHERE + ('line', 'line'))
    return dict(elements=els, bunches=bunches(), later=bunches(),
                bystander=E.gen_bunch(r), beamline=r.random() < 0.3,
                opmd=r.random() < 0.4 or where == 'write',
                bar=r.random() < 0.3, pool=r.randint(1, 8),
                exc=r.choice(EXC), where=where,
                at=r.random(), after=r.choice(['same', 'new']),
                again_diag=r.choice(['same', 'none']))


def valid(sc):
    return len(sc['later']) == len(sc['bunches'])


class Injector:
    """Counts events of one kind; raises at the chosen one."""

    def __init__(self, where, at=None, exc=None):
        self.where, self.at, self.exc = where, at, exc
        self.n = 0
        self.place = None

    def __call__(self, kind, obj=None, place=None):
        if kind != self.where:
            return
        self.n += 1
        if self.n == self.at:
            self.place = place or kind
            raise self.exc


def root():
    return os.path.dirname(os.path.abspath(wake_t.__file__)) + os.sep


PARTS = ('particles', 'fields', 'physics_models', 'diagnostics')


class Tracer:
    """Feeds executed lines of the package to the injector."""

    def __init__(self, inj):
        self.inj = inj
        r = root()
        self.dirs = tuple(r + p + os.sep for p in PARTS)

    def __enter__(self):
        sys.settrace(self.call)

    def __exit__(self, *a):
        sys.settrace(None)

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.dirs):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == 'line':
            self.inj('line', None, frame.f_code.co_name)
        return self.line


class Nothing:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


class World:
    def __init__(self, sc, specs, objs=None, logs=None):
        self.sc = sc
        self.g = sc['bunches'][0]['gamma']
        self.hook = None
        self.logs = []
        self.objs = []
        for e in sc['elements']:
            log = RaisingLog()
            self.logs.append(log)
            self.objs.append(E.build(e, hook=self.call, log=log,
                                     gamma=self.g))

    def call(self, kind, obj):
        if self.hook is not None:
            self.hook(kind, obj)

    def arm(self, inj, bunches, diag):
        self.hook = inj
        for lg in self.logs:
            lg.fail = inj
        for b in bunches:
            b.hook = inj
        if diag is not None and inj is not None:
            orig = type(diag).write_diagnostics

            def write(*a, **k):
                inj('write', diag)
                return orig(diag, *a, **k)
            diag.write_diagnostics = write
        elif diag is not None:
            diag.__dict__.pop('write_diagnostics', None)

    def track(self, bunches, diag, outs):
        """Track through all elements; completed outputs go to `outs`."""
        sc = self.sc
        kw = dict(show_progress_bar=sc['bar'],
                  opmd_diag=diag if diag is not None else False)
        arg = bunches[0] if len(bunches) == 1 else list(bunches)
        if sc['beamline']:
            outs.append(flat(Beamline(self.objs).track(arg, **kw)))
            return
        for el, e in zip(self.objs, sc['elements']):
            if not E.usable(bunches):
                raise E.Unphysical('lost')
            a = bunches[0] if E.is_tm(e) else list(bunches)
            outs.append(flat(el.track(a, **kw)))


def flat(out):
    res = []
    for o in out:
        res.extend(o if isinstance(o, list) else [o])
    return res


def settings():
    from wake_t.physics_models.collective_effects.csr import \
        reset_csr_calculator
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)
    reset_csr_calculator()


def guarded(sc, specs, bunches, fn):
    with E.guard(sc['elements'], specs, bunches, sc['bunches'][0]['gamma']):
        return fn()


def later(sc, w, diag):
    """The tracking that has to work afterwards."""
    bunches = [E.build_bunch(b) for b in sc['later']]
    outs = []
    guarded(sc, sc['later'], bunches, lambda: w.track(bunches, diag, outs))
    return ([[bunch_state(b) for b in o] for o in outs],
            [bunch_state(b) for b in bunches])


def fresh(sc):
    settings()
    return later(sc, World(sc, None), None)


def quiet(sc):
    """Number of events of the chosen kind in an undisturbed tracking."""
    settings()
    w = World(sc, None)
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    inj = Injector(sc['where'])
    if sc['where'] == 'write':
        # One output per snapshot time and element.
        return sum(E.n_outputs(e) for e in sc['elements'])
    w.arm(inj, bunches, None)
    diag = None
    with Tracer(inj) if sc['where'] == 'line' else Nothing():
        guarded(sc, sc['bunches'], bunches,
                lambda: w.track(bunches, diag, []))
    return inj.n


def run(sc, ctx):
    st, ref = in_child(lambda: fresh(sc), 100.)
    if st != 'ok':
        ref = None
    n = quiet(sc)
    settings()
    ctx.sim_time += E.total_length(sc['elements']) / ct.c
    if n == 0:
        ctx.ev('no such event')
        return
    folder = os.path.join(ctx.tmp(), 'diags')
    diag = OpenPMDDiagnostics(folder) if sc['opmd'] else None
    w = World(sc, None)
    bunches = [E.build_bunch(b, common.SimBunch) for b in sc['bunches']]
    other = E.build_bunch(sc['bystander'])
    other_state = bunch_state(other)
    exc = make_exc(sc['exc'])
    inj = Injector(sc['where'], 1 + int(sc['at'] * n), exc)
    kernels.POOL.n = sc['pool']
    outs = []
    w.arm(inj, bunches, diag)
    caught = None
    try:
        with Tracer(inj) if sc['where'] == 'line' else Nothing():
            w.track(bunches, diag, outs)
    except BaseException as x:
        sys.settrace(None)
        if inj.place is None and not isinstance(x, (SystemExit,
                                                    KeyboardInterrupt)):
            raise
        caught = x
    w.arm(None, bunches, diag)
    pool_now = kernels.POOL.n
    kernels.POOL.n = kernels.POOL.maximum
    what = '%s at %s %d of %d (%s)' % (sc['exc'], sc['where'], inj.at, n,
                                       inj.place)
    ctx.ev(what, [e['kind'] for e in sc['elements']])
    ctx.state([e['kind'] for e in sc['elements']], sc['exc'], inj.place)
    if inj.place is not None:
        ctx.nontrivial()
        ctx.fault('%s:%s' % (sc['where'], sc['exc']))
        if caught is None:
            raise Violation('swallowed', '%s: tracking returned as if nothing '
                            'had happened' % what)
        if caught is not exc:
            raise Violation('changed', '%s: the caller received %r' % (
                what, caught))
    exc.__traceback__ = None
    exc.__context__ = None
    caught = None
    if pool_now != sc['pool']:
        raise Violation('threads', '%s: number of threads is %d after '
                        'tracking, was %d' % (what, pool_now, sc['pool']))
    bad = same_state(other_state, bunch_state(other))
    if bad:
        raise Violation('bystander', '%s: %s of an untracked bunch changed'
                        % (what, bad))
    files = h5.series(folder) if diag is not None else {}
    states = [[bunch_state(b) for b in o] for o in outs]
    good = {}
    for i, f in files.items():
        c = h5.try_content(f)
        if c is None:
            # Only the output during which the failure happened.
            if i != max(files):
                raise Violation('earlier-output', '%s: output %d of %d is '
                                'unreadable' % (what, i, len(files)))
        else:
            good[i] = c
    if sorted(files) != list(range(len(files))):
        raise Violation('earlier-output', '%s: files %s' % (
            what, sorted(files)))
    # Afterwards.
    if sc['after'] == 'new':
        w = World(sc, None)
    settings()
    diag2 = diag if sc['again_diag'] == 'same' else None
    kernels.POOL.n = sc['pool']
    try:
        got = later(sc, w, diag2)
    except E.Unphysical:
        if ref is not None:
            raise Violation('afterwards', '%s: tracking fails afterwards' %
                            what)
        return
    finally:
        pool_now = kernels.POOL.n
        kernels.POOL.n = kernels.POOL.maximum
    if ref is None:
        raise Violation('afterwards', 'tracking works, but not in a fresh '
                        'process')
    if pool_now != sc['pool']:
        raise Violation('threads', 'number of threads is %d after a '
                        'successful tracking, was %d' % (
                            pool_now, sc['pool']))
    for a, b in zip(ref[0] + [ref[1]], got[0] + [got[1]]):
        if len(a) != len(b):
            raise Violation('afterwards', '%s: %d outputs afterwards, fresh '
                            '%d' % (what, len(b), len(a)))
        for x, y in zip(a, b):
            bad = same_state(x, y)
            if bad:
                raise Violation('afterwards', '%s: tracking afterwards gives '
                                'different %s than a fresh process' % (
                                    what, bad))
    for o, s in zip(outs, states):
        for b, t in zip(o, s):
            if same_state(t, bunch_state(b)):
                raise Violation('earlier-output', '%s: an earlier snapshot '
                                'changed afterwards' % what)
    if diag2 is not None:
        files = h5.series(folder)
        for i, f in sorted(files.items()):
            c = h5.try_content(f)
            if c is None:
                raise Violation('files', '%s: output %d is unreadable after '
                                'tracking again' % (what, i))
        n_new = sum(E.n_outputs(e) for e in sc['elements'])
        if sorted(files) != list(range(len(files))) or \
                len(files) - n_new not in (len(good), len(good) - 1):
            raise Violation('files', '%s: %d readable files before, %d '
                            'outputs afterwards, files %s' % (
                                what, len(good), n_new, sorted(files)))
        for i, c in good.items():
            if i < len(files) - n_new and h5.try_content(files[i]) != c:
                raise Violation('earlier-output', '%s: output %d changed'
                                % (what, i))
