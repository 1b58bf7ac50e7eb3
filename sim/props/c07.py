"""C07: tracking results do not depend on what was tracked before."""
import scipy.constants as ct

import wake_t
from wake_t.diagnostics import OpenPMDDiagnostics
from sim import common, elements as E
from sim.common import Violation, bunch_state, same_state, coords
from sim.runner import in_child

LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=60000)
RULE = ('One seeded history per run: a pool of 1-4 element objects of any '
        'type; 0-6 earlier operations (trackings of other bunches with other '
        'numbers of particles, energies and species through the same or '
        'unrelated objects, trackings that fail at a random seam event, '
        'rejected calls, CSR resets), then the tracking under test. The '
        'same tracking with new objects in a fresh process, forked before '
        'the history, must give bit-identical bunches and outputs. '
        'Non-trivial: at least one earlier operation.')
MEASURE = 'sequence of operations, elements and failure points'
REAL = ['wake_t (whole package, kernels as Python)']
STUB = ['numba compiler and thread pool', 'wall clock']
ASSUMPTIONS = ['a laser pulse is never shared between the history and the '
               'tracking under test; a CSR chain under test starts after a '
               'reset or a non-CSR element']


class Injected(Exception):
    pass


def gen(r, i, tier):
    nb = r.choice([1, 1, 1, 1, 2, 3])
    kinds = list(E.FIELD_KINDS if nb > 1 else E.ALL_KINDS)
    if r.random() < 0.9:
        kinds.remove('qs')
    csr = r.choice([0., 0.1, 0.7])
    if csr > 0.5 and nb == 1:
        kinds = list(E.TM_KINDS) + ['fquad']
    pool = []
    for _ in range(r.randint(1, 4)):
        e = E.gen_element(r, kinds, nb, csr=csr)
        if e['kind'] in ('fluid', 'qs'):
            e.pop('laser', None)
        pool.append(e)
    name = E.namer(r)

    def bunches(**kw):
        return [E.gen_bunch(r, n=r.choice([3, 4, 5, 9]), name=name(j), **kw)
                for j in range(nb)]
    ops = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        m = r.random()
        if m < 0.65:
            op = dict(op='track', bunches=bunches(),
                      els=[r.randrange(len(pool))
                           for _ in range(r.randint(1, 3))])
            if r.random() < 0.4:
                op['fail'] = dict(at=r.choice([1, 2, 3, 5, 8, 13]), where=r.choice(
                    ['push', 'copy', 'update', 'gather', 'density', 'write']))
            if r.random() < 0.15:
                op['same'] = True       # the bunches of the final tracking
        elif m < 0.8:
            e = E.gen_element(r, [k for k in E.ALL_KINDS if k != 'qs'
                                  or r.random() < 0.2], 1, csr=csr)
            if r.random() < 0.4:
                # Same kind as an element under test, other parameters.
                k = r.choice(pool)['kind']
                e = E.gen_element(r, [k], 1, csr=csr)
            if isinstance(e.get('dt'), list):
                e['dt'] = 'auto'
            op = dict(op=r.choice(['other', 'create']), element=e,
                      bunches=[E.gen_bunch(r, n=3)])
        elif m < 0.9:
            op = dict(op='reset')
        else:
            op = dict(op='bad', els=[r.randrange(len(pool))],
                      bunches=bunches())
        ops.append(op)
    idx = list(range(len(pool)))
    r.shuffle(idx)
    sc = dict(pool=pool, ops=ops, bunches=bunches(), boundary=r.choice(
        ['reset', 'drift']), final=idx[:r.randint(1, len(pool))])
    if r.random() < 0.2:
        # The bunch objects have a history as well.
        sc['recycled'] = dict(bunches=[E.gen_bunch(r, n=r.choice([2, 4, 7]))
                                       for _ in range(nb)],
                              pusher=r.choice(['boris', 'rk4']))
    return sc


class RaisingLog(list):
    """Receives the density samples; may raise."""
    fail = None

    def append(self, v):
        if self.fail is not None:
            self.fail('density', self)


class Failer:
    def __init__(self, spec):
        self.where, self.left = spec['where'], spec['at']

    def __call__(self, kind, obj):
        if kind == self.where:
            self.left -= 1
            if self.left == 0:
                raise Injected(kind)


class World:
    def __init__(self, sc, lazy=False):
        self.sc = sc
        self.hook = None
        self.g = sc['bunches'][0]['gamma']
        self.objs, self.logs, self.extra = [], [], []
        for k in range(len(sc['pool'])):
            self.objs.append(None)
            if not lazy:
                self.obj(k)

    def obj(self, k):
        if self.objs[k] is None:
            log = RaisingLog()
            self.logs.append(log)
            self.objs[k] = E.build(self.sc['pool'][k], hook=self._call,
                                   log=log, gamma=self.g)
        return self.objs[k]

    def _call(self, kind, obj):
        if self.hook is not None:
            self.hook(kind, obj)

    def set_hook(self, hook):
        self.hook = hook
        for log in self.logs:
            log.fail = hook

    def final(self, ctx=None):
        """The tracking under test."""
        sc = self.sc
        bunches = [E.build_bunch(b) for b in sc['bunches']]
        if ctx is not None and 'recycled' in sc:
            bunches = [recycle(b, s, sc['recycled']['pusher']) for b, s in
                       zip(bunches, sc['recycled']['bunches'])]
        res = []
        for k in sc['final']:
            if not E.usable(bunches):
                break
            out = E.track(self.obj(k), sc['pool'][k], bunches)
            res.append([[bunch_state(s) for s in o] for o in out])
            res.append([bunch_state(b) for b in bunches])
        return res


def recycle(new, spec, pusher):
    """The state of `new` in a bunch object that has been tracked before."""
    from wake_t import PlasmaStage
    b = E.build_bunch(spec)
    PlasmaStage(1e-4, 1e22, 'focusing_blowout', bunch_pusher=pusher,
                dt_bunch=1e-4 / ct.c, n_out=1).track(
        b, show_progress_bar=False)
    b.set_phase_space(*[getattr(new, c) for c in common.COORDS])
    for k in ('w', 'tags', 'prop_distance', 't_flight', 'z_injection', 'name',
              'q_species', 'm_species'):
        setattr(b, k, getattr(new, k))
    return b


def settings():
    wake_t.set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=40)


def fresh(sc):
    settings()
    return World(sc, lazy=True).final()


def history(w, op, ctx, tmp):
    sc = w.sc
    if op['op'] == 'reset':
        from wake_t.physics_models.collective_effects.csr import \
            reset_csr_calculator
        reset_csr_calculator()
        return
    if op['op'] == 'create':
        # An element that exists but is not tracked through.
        w.extra.append(E.build(op['element'], gamma=w.g))
        return
    if op['op'] == 'other':
        b = [E.build_bunch(x) for x in op['bunches']]
        E.track(E.build(op['element'], gamma=w.g), op['element'], b)
        ctx.sim_time += op['element']['L'] / ct.c
        return
    specs = sc['bunches'] if op.get('same') else op['bunches']
    bunches = [E.build_bunch(b, common.SimBunch) for b in specs]
    if op['op'] == 'bad':
        el = w.objs[op['els'][0] % len(w.objs)]
        if E.is_tm(sc['pool'][op['els'][0] % len(w.objs)]):
            el.track(None, show_progress_bar=False)
        else:
            old = el.dt_bunch
            try:
                el.dt_bunch = [1e-15] * (len(bunches) + 2)
                el.track(bunches, show_progress_bar=False)
            finally:
                el.dt_bunch = old
        return
    fail = Failer(op['fail']) if 'fail' in op else None
    kw = {}
    if fail is not None:
        for b in bunches:
            b.hook = fail
        w.set_hook(fail)
        if op['fail']['where'] == 'write':
            diag = OpenPMDDiagnostics(tmp)

            def write(*a, **k):
                fail('write', diag)
            diag.write_diagnostics = write
            kw = dict(opmd_diag=diag)
    try:
        for k in op['els']:
            k %= len(w.objs)
            if not E.usable(bunches):
                break
            E.track(w.objs[k], sc['pool'][k], bunches, **kw)
            ctx.sim_time += sc['pool'][k]['L'] / ct.c
    finally:
        w.set_hook(None)


def run(sc, ctx):
    st, ref = in_child(lambda: fresh(sc), 100.)
    if st != 'ok':
        # The tracking fails by itself (e.g. the bunch is lost): the verdict
        # is that it does so here, too.
        ref = None
    settings()
    w = World(sc)
    csr_open = False
    shape = []
    if 'recycled' in sc:
        ctx.nontrivial()
    for op in sc['ops']:
        ctx.nontrivial()
        label = op['op']
        try:
            history(w, op, ctx, ctx.tmp())
        except Injected as x:
            label += ':fail-' + str(x)
            ctx.fault('tracking-failed:' + str(x))
        except Exception as x:
            label += ':' + type(x).__name__
            ctx.fault('rejected-call')
        shape.append((label, op.get('els')))
        ctx.ev(label)
        csr_open = csr_open or op['op'] != 'reset'
    if csr_open and sc['pool'][sc['final'][0]].get('csr'):
        if sc['boundary'] == 'reset':
            history(w, dict(op='reset'), ctx, None)
        else:
            from wake_t import Drift
            b = [E.build_bunch(x) for x in sc['bunches'][:1]]
            Drift(0.1).track(b[0], show_progress_bar=False)
    ctx.state([e['kind'] for e in sc['pool']], shape, sc['final'])
    try:
        res = w.final(ctx)
    except E.Unphysical:
        if ref is not None:
            raise Violation('history', 'the tracking fails after the history '
                            'but not in a fresh process')
        return
    except Exception as x:
        if ref is None:
            ctx.ev('fails anyway', type(x).__name__)
            return
        raise Violation('history', 'the tracking raises %r after the history '
                        'but not in a fresh process' % x)
    if ref is None:
        raise Violation('history', 'the tracking works after the history but '
                        'fails in a fresh process')
    if len(res) != len(ref):
        raise Violation('history', 'number of elements crossed differs')
    for k, (a, b) in enumerate(zip(res, ref)):
        what = sc['pool'][sc['final'][k // 2]]['kind']
        if k % 2 == 0:
            if [len(o) for o in a] != [len(o) for o in b]:
                raise Violation('history', '%s: number of outputs %s, fresh '
                                '%s' % (what, [len(o) for o in a],
                                        [len(o) for o in b]))
            pairs = [(x, y) for o, p in zip(a, b) for x, y in zip(o, p)]
        else:
            pairs = list(zip(a, b))
        for x, y in pairs:
            ctx.ev(what, x['coords'])
            bad = same_state(x, y)
            if bad:
                raise Violation('history', 'element %d of the tracking (%s) '
                                'gives different %s after the history than '
                                'in a fresh process' % (k // 2, what, bad))
