"""Simulated numba: kernels run as plain Python, parallel loops on simulated
threads.

`install()` must run before Wake-T is imported.  It replaces ``numba.njit`` /
``numba.jit`` and the thread-count functions of numba.  By default every kernel
runs sequentially (numba semantics with parallel loops executed in order).  In
*threads* mode each ``prange`` loop of a kernel compiled with ``parallel=True``
is executed by T simulated threads: the iterations are partitioned into chunks,
scalars assigned in the loop are private to a thread, reductions are combined
per thread (as numba does), and before every store to an array the running
thread may be preempted.  Read-modify-write of an array element is not atomic.
A seeded generator takes every decision, so one seed is one execution.

The parked threads are real Python threads, but exactly one of them holds the
baton at any time and only the baton holder chooses who runs next.
"""
import ast
import inspect
import os
import textwrap
import threading
import random

import numpy as np


class PoolConfig:
    """The thread-count setting of the (simulated) numba runtime."""
    def __init__(self):
        self.maximum = 8
        self.n = 8
        self.log = []
        self.fail_on_set = None

    def set(self, n):
        n = int(n)
        if n < 1 or n > self.maximum:
            raise ValueError(
                'The number of threads must be between 1 and %d'
                % self.maximum)
        self.log.append(n)
        self.n = n

    def get(self):
        return self.n


POOL = PoolConfig()


class Stats:
    def __init__(self):
        self.reset()

    def reset(self):
        self.loops = 0            # parallel loops executed on threads
        self.switches = 0         # preemptions taken
        self.yields = 0           # preemption points passed
        self.kernels = set()      # names of kernels executed on threads
        self.sched_hash = 0       # hash of the schedule
        self.untransformed = set()


STATS = Stats()


class ThreadMode:
    """Configuration of one simulated run (None = sequential)."""
    def __init__(self, seed, n_threads, p_switch, chunking):
        self.rng = random.Random(seed)
        self.n_threads = n_threads
        self.p_switch = p_switch
        self.chunking = chunking


MODE = None
_CURRENT = threading.local()      # scheduler of the running simulated thread


def set_mode(mode):
    global MODE
    MODE = mode


def sim_yield():
    sched = getattr(_CURRENT, 'sched', None)
    if sched is not None:
        sched.point()


class Scheduler:
    """Runs callables as simulated threads, one at a time."""

    def __init__(self, mode):
        self.mode = mode
        self.locks = []
        self.alive = []
        self.current = None
        self.errors = []
        self.done = threading.Lock()

    def point(self):
        STATS.yields += 1
        m = self.mode
        if m.rng.random() < m.p_switch and len(self.alive) > 1:
            nxt = m.rng.choice(self.alive)
            if nxt != self.current:
                me = self.current
                STATS.switches += 1
                STATS.sched_hash = hash((STATS.sched_hash, STATS.yields, nxt))
                self.current = nxt
                self.locks[nxt].release()
                self.locks[me].acquire()

    def _main(self, k, fn):
        _CURRENT.sched = self
        try:
            fn()
        except BaseException as e:      # noqa: B902 (reported by the caller)
            self.errors.append(e)
        finally:
            _CURRENT.sched = None
            self.alive.remove(k)
            if self.alive:
                nxt = self.mode.rng.choice(self.alive)
                STATS.sched_hash = hash((STATS.sched_hash, -7, nxt))
                self.current = nxt
                self.locks[nxt].release()
            else:
                self.done.release()

    def run(self, fns):
        n = len(fns)
        ws = _workers(n)
        self.locks = [w.lock for w in ws]
        self.alive = list(range(n))
        self.done.acquire()
        for k, (w, f) in enumerate(zip(ws, fns)):
            w.job = (self, k, f)
        self.current = self.mode.rng.choice(self.alive)
        STATS.sched_hash = hash((STATS.sched_hash, -11, n, self.current))
        self.locks[self.current].release()
        self.done.acquire()
        if self.errors:
            raise self.errors[0]


class _Worker(threading.Thread):
    """A parked thread; runs a job whenever it is handed the baton idle."""

    def __init__(self):
        super().__init__(daemon=True)
        self.lock = threading.Lock()
        self.lock.acquire()
        self.job = None
        self.start()

    def run(self):
        while True:
            self.lock.acquire()
            sched, k, fn = self.job
            self.job = None
            sched._main(k, fn)
            del sched, fn


_POOL = (None, [])


def _workers(n):
    """Parked threads of this process (they do not survive a fork)."""
    global _POOL
    if _POOL[0] != os.getpid():
        _POOL = (os.getpid(), [])
    while len(_POOL[1]) < n:
        _POOL[1].append(_Worker())
    return _POOL[1][:n]


def _partition(mode, items):
    """Split the iterations of a loop over the threads."""
    n = len(items)
    t = max(1, min(mode.n_threads, n))
    if mode.chunking == 'static':           # numba's default: equal ranges
        q, r = divmod(n, t)
        out, i = [], 0
        for k in range(t):
            m = q + (1 if k < r else 0)
            out.append(items[i:i + m])
            i += m
        return out
    if mode.chunking == 'ragged':           # contiguous, random boundaries
        cuts = sorted(mode.rng.randrange(n + 1) for _ in range(t - 1))
        cuts = [0] + cuts + [n]
        return [items[a:b] for a, b in zip(cuts, cuts[1:])]
    out = [[] for _ in range(t)]            # cyclic
    for i, it in enumerate(items):
        out[i % t].append(it)
    return out


_UNSET = object()
_COMBINE = {'*': lambda v, p: v * p, '+': lambda v, p: v + p,
            'min': min, 'max': max}


def sim_prange(rng_obj, body, frame_locals, assigned, reductions):
    """Execute one parallel loop.  Returns the values of the variables
    assigned in the loop."""
    mode = MODE
    items = list(rng_obj)
    init = {k: frame_locals[k] for k in assigned if k in frame_locals}
    if mode is None or getattr(_CURRENT, 'sched', None) is not None:
        res = body(items, **init)
        return {k: v for k, v in res.items()
                if k in assigned and v is not _UNSET}
    STATS.loops += 1
    chunks = _partition(mode, items)
    results = [None] * len(chunks)
    order = []

    def make(k, chunk):
        def fn():
            priv = dict(init)
            for name, op in reductions.items():
                if name in priv and op in '+*':
                    v = priv[name]
                    priv[name] = v * 0 + (1 if op == '*' else 0)
            results[k] = body(chunk, **priv)
            order.append(k)
        return fn
    Scheduler(mode).run([make(k, c) for k, c in enumerate(chunks)])
    out = {}
    last = max((k for k, c in enumerate(chunks) if c), default=None)
    for name in assigned:
        if name in reductions and name in init:
            v = init[name]
            for k in order:
                p = results[k][name]
                v = _COMBINE[reductions[name]](v, p)
            out[name] = v
        elif last is not None and results[last].get(name, _UNSET) \
                is not _UNSET:
            out[name] = results[last][name]
    return out


# --------------------------------------------------------------------------
# source transformation

def _assigned_names(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)

        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        visit_Lambda = visit_ListComp
    for n in nodes:
        V().visit(n)
    return out


def _reductions(body, assigned):
    """Names only ever updated by augmented assignment in the loop."""
    aug, plain = {}, set()

    class V(ast.NodeVisitor):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                op = '*' if isinstance(n.op, ast.Mult) else (
                    '+' if isinstance(n.op, (ast.Add, ast.Sub)) else None)
                if op is None or aug.get(n.target.id, op) != op:
                    plain.add(n.target.id)
                aug[n.target.id] = op
            self.visit(n.value)

        def visit_Assign(self, n):
            # m = max(m, value), m = min(value, m)
            v = n.value
            if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                    and isinstance(v, ast.Call) and isinstance(
                        v.func, ast.Name) and v.func.id in ('min', 'max') \
                    and not v.keywords:
                name = n.targets[0].id
                own = [a for a in v.args
                       if isinstance(a, ast.Name) and a.id == name]
                if len(own) == 1:
                    if aug.get(name, v.func.id) != v.func.id:
                        plain.add(name)
                    aug[name] = v.func.id
                    for a in v.args:
                        if a is not own[0]:
                            self.visit(a)
                    return
            self.generic_visit(n)

        def visit_Name(self, n):
            # Any other use makes it a loop-carried private variable.
            plain.add(n.id)
    for n in body:
        V().visit(n)
    return {k: v for k, v in aug.items() if k not in plain}


class _Yielder(ast.NodeTransformer):
    """Insert preemption points around every store and assignment; the load
    and the store of an element update are separated."""

    def __init__(self):
        self.k = 0

    def _tmp(self):
        self.k += 1
        return '__sim_t%d' % self.k

    def _yield(self):
        return ast.Expr(ast.Call(ast.Name('__sim_yield', ast.Load()), [], []))

    def visit_Assign(self, n):
        if any(isinstance(t, ast.Subscript) for t in n.targets):
            t = self._tmp()
            first = ast.Assign([ast.Name(t, ast.Store())], n.value)
            n.value = ast.Name(t, ast.Load())
            return [first, self._yield(), n, self._yield()]
        return [n, self._yield()]

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript):
            o, k, v = self._tmp(), self._tmp(), self._tmp()

            def nm(x, c=ast.Load):
                return ast.Name(x, c())
            return [
                ast.Assign([nm(o, ast.Store)], n.target.value),
                ast.Assign([nm(k, ast.Store)], _slice_expr(n.target.slice)),
                ast.Assign([nm(v, ast.Store)], ast.BinOp(
                    ast.Subscript(nm(o), nm(k), ast.Load()), n.op, n.value)),
                self._yield(),
                ast.Assign([ast.Subscript(nm(o), nm(k), ast.Store())], nm(v)),
                self._yield(),
            ]
        return [n, self._yield()]

    def visit_Lambda(self, n):
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return n


def _slice_expr(s):
    """Turn a slice node into an expression that can be stored."""
    def none():
        return ast.Constant(None)
    if isinstance(s, ast.Slice):
        return ast.Call(ast.Name('slice', ast.Load()), [
            s.lower or none(), s.upper or none(), s.step or none()], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_slice_expr(e) for e in s.elts], ast.Load())
    return s


class _Outliner(ast.NodeTransformer):
    def __init__(self, is_prange, parallel):
        self.is_prange = is_prange
        self.parallel = parallel
        self.n = 0

    def visit_For(self, n):
        if not (self.parallel and isinstance(n.iter, ast.Call)
                and self.is_prange(n.iter.func)):
            self.generic_visit(n)
            return n
        self.n += 1
        name = '__sim_body%d' % self.n
        assigned = _assigned_names([n.target] + n.body)
        red = _reductions(n.body, assigned)
        args = ast.arguments(
            posonlyargs=[], args=[ast.arg('__sim_items')], vararg=None,
            kwonlyargs=[ast.arg(a) for a in assigned],
            kw_defaults=[ast.Name('__sim_unset', ast.Load())
                         for _ in assigned],
            kwarg=None, defaults=[])
        loop = ast.For(n.target, ast.Name('__sim_items', ast.Load()),
                       n.body, [])
        ret = ast.Return(ast.Dict(
            [ast.Constant(a) for a in assigned],
            [ast.Name(a, ast.Load()) for a in assigned]))
        fdef = ast.FunctionDef(
            name=name, args=args, body=[loop, ret], decorator_list=[],
            type_params=[])
        call = ast.Assign(
            [ast.Name('__sim_res', ast.Store())],
            ast.Call(ast.Name('__sim_prange', ast.Load()), [
                ast.Call(ast.Name('range', ast.Load()), n.iter.args, []),
                ast.Name(name, ast.Load()),
                ast.Call(ast.Name('locals', ast.Load()), [], []),
                ast.List([ast.Constant(a) for a in assigned], ast.Load()),
                ast.Dict([ast.Constant(k) for k in red],
                         [ast.Constant(v) for v in red.values()]),
            ], []))
        back = [ast.If(
            ast.Compare(ast.Constant(a), [ast.In()],
                        [ast.Name('__sim_res', ast.Load())]),
            [ast.Assign([ast.Name(a, ast.Store())], ast.Subscript(
                ast.Name('__sim_res', ast.Load()), ast.Constant(a),
                ast.Load()))], []) for a in assigned]
        return [fdef, call] + back


def transform(func, parallel):
    """Return the instrumented version of a kernel."""
    import numba
    src = textwrap.dedent(inspect.getsource(func))
    tree = ast.parse(src)
    fdef = tree.body[0]
    if not isinstance(fdef, ast.FunctionDef):
        raise ValueError('not a function definition')
    fdef.decorator_list = []
    glob = func.__globals__
    free = {}
    if func.__closure__:
        for n, c in zip(func.__code__.co_freevars, func.__closure__):
            try:
                free[n] = c.cell_contents
            except ValueError:
                pass

    def is_prange(f):
        if isinstance(f, ast.Name):
            obj = free.get(f.id, glob.get(f.id))
            return obj is numba.prange or f.id == 'prange'
        return isinstance(f, ast.Attribute) and f.attr == 'prange'
    # default arguments and annotations are evaluated in the namespace
    tree = _Outliner(is_prange, parallel).visit(tree)
    tree = _Yielder().visit(tree)
    ast.fix_missing_locations(tree)
    ns = dict(glob)
    ns.update(free)
    ns.update(__sim_yield=sim_yield, __sim_prange=sim_prange,
              __sim_unset=_UNSET)
    exec(compile(tree, '<sim:%s>' % func.__qualname__, 'exec'), ns)
    return ns[fdef.name]


class SimKernel:
    """A kernel; dispatches to the sequential or the threaded version."""

    def __init__(self, func, parallel):
        self.py_func = func
        self.parallel = parallel
        self._sim = None
        self.__name__ = getattr(func, '__name__', '?')
        self.__doc__ = func.__doc__
        self.__module__ = getattr(func, '__module__', '?')
        self.__wrapped__ = func

    def __call__(self, *a, **k):
        if MODE is None:
            return self.py_func(*a, **k)
        if not self.parallel and getattr(_CURRENT, 'sched', None) is None:
            return self.py_func(*a, **k)
        if self._sim is None:
            try:
                self._sim = transform(self.py_func, self.parallel)
            except Exception as e:
                STATS.untransformed.add('%s: %r' % (self.__name__, e))
                self._sim = self.py_func
        if self.parallel:
            STATS.kernels.add(self.__name__)
        return self._sim(*a, **k)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        import types
        return types.MethodType(self, obj)


def _njit(*args, **kw):
    parallel = bool(kw.get('parallel', False))
    if args and callable(args[0]) and not isinstance(args[0], (str, tuple)):
        f = args[0]
        if isinstance(f, SimKernel):
            return f
        return SimKernel(f, parallel)

    def deco(f):
        return f if isinstance(f, SimKernel) else SimKernel(f, parallel)
    return deco


def install():
    import numba
    # With NUMBA_DISABLE_JIT=1 importing numba compiles nothing itself.
    numba.njit = _njit
    numba.jit = _njit
    numba.set_num_threads = POOL.set
    numba.get_num_threads = POOL.get
    numba.config.NUMBA_NUM_THREADS = POOL.maximum


def reset():
    POOL.n = POOL.maximum
    POOL.log = []
    set_mode(None)
    STATS.reset()
