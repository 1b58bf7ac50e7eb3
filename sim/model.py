"""Reference model: a small sequential discrete-event tracker.

Deliberately naive and independent of Wake-T: event times are exact fractions
of the element duration, the pushers are textbook vectorised numpy, and ties
are resolved by the documented order (bunches, fields, output).
"""
from fractions import Fraction as F
import numpy as np
import scipy.constants as ct


class RefBunch:
    def __init__(self, w, x, y, xi, px, py, pz, q, m, prop=0., z_inj=None):
        self.w = np.array(w, float)
        self.X = np.array([x, y, xi, px, py, pz], float)
        self.q, self.m = q, m
        self.prop = prop
        self.z_inj = z_inj
        self.edge = False
        self.n_ballistic = self.n_injected = 0

    x = property(lambda s: s.X[0])
    y = property(lambda s: s.X[1])
    xi = property(lambda s: s.X[2])
    px = property(lambda s: s.X[3])
    py = property(lambda s: s.X[4])
    pz = property(lambda s: s.X[5])

    def clone(self):
        return RefBunch(self.w, *self.X, self.q, self.m, self.prop, self.z_inj)


def _fields_at(fields, x, y, xi, t):
    out = np.zeros((6, len(x)))
    for f in fields:
        out += f.ref_gather(x, y, xi, t)
    return out


def _vel(p):
    return p * (ct.c / np.sqrt(1 + np.sum(p**2, axis=0)))


def push(b, fields, t, dt, pusher):
    """Advance a reference bunch by dt."""
    if b.z_inj is not None:
        head = np.max(b.xi) + b.prop
        if abs(head - b.z_inj) < 1e-9 * dt * ct.c + 1e-13 * abs(head):
            b.edge = True      # rounding decides: no verdict
        if head < b.z_inj:
            fields = []
            b.n_ballistic += 1
        else:
            b.n_injected += 1
    k = b.q / (b.m * ct.c)
    shift = np.array([[0.], [0.], [ct.c]])
    if pusher == 'boris':
        r, p = b.X[:3].copy(), b.X[3:].copy()
        r = r + 0.5 * dt * (_vel(p) - shift)
        f = _fields_at(fields, *r, t + dt/2)
        e, m = f[:3], f[3:]
        pm = p + 0.5 * dt * k * e
        tv = (0.5 * dt * k * ct.c / np.sqrt(1 + np.sum(pm**2, axis=0))) * m
        s = 2 * tv / (1 + np.sum(tv**2, axis=0))
        pp = pm + np.cross(pm.T, tv.T).T
        pn = pm + np.cross(pp.T, s.T).T + 0.5 * dt * k * e
        r = r + 0.5 * dt * (_vel(pn) - shift)
        b.X = np.concatenate([r, pn])
    elif pusher == 'rk4':
        def f(tt, X):
            fl = _fields_at(fields, X[0], X[1], X[2], tt)
            v = _vel(X[3:])
            force = k * (fl[:3] + np.cross(v.T, fl[3:].T).T)
            return np.concatenate([v - shift, force])
        X = b.X
        k1 = f(t, X)
        k2 = f(t + dt/2, X + dt/2*k1)
        k3 = f(t + dt/2, X + dt/2*k2)
        k4 = f(t + dt, X + dt*k3)
        b.X = X + dt/6*(k1 + 2*k2 + 2*k3 + k4)
    else:
        raise ValueError(pusher)
    b.prop += dt * ct.c


class RefRun:
    """Track reference bunches through one field-based element."""

    def __init__(self, length, bunches, steps, fields, n_out, pusher,
                 push_before):
        """steps: per bunch a Fraction (fixed) or a callable(bunch, p0)
        returning a Fraction (adaptive); fields: objects with ref_gather and,
        if numerical, `period` (Fraction) and ref_update(bunches, t)."""
        self.T = length / ct.c
        self.L = length
        self.bunches, self.steps, self.fields = bunches, steps, fields
        self.n_out, self.pusher, self.push_before = n_out, pusher, push_before
        self.events = []          # (time fraction, kind, index)
        self.snapshots = [[] for _ in bunches]
        self.ambiguous = False

    def _out(self, t):
        self.events.append((t, 'out', 0))
        for i, b in enumerate(self.bunches):
            self.snapshots[i].append((b.clone(), self.tb[i]))

    def run(self):
        T, B = self.T, self.bunches
        p0 = [b.prop for b in B]
        num = [f for f in self.fields if f.period is not None]
        self.tb = [F(0)] * len(B)
        tf = [F(0)] * len(num)
        n_upd = [0] * len(num)
        td = F(0)
        for j, f in enumerate(num):
            f.ref_update(B, 0.)
            self.events.append((F(0), 'field', j))
        if self.n_out > 0:
            self._out(F(0))

        def step_of(i):
            s = self.steps[i]
            return s(B[i], p0[i]) if callable(s) else s
        cur = [step_of(i) for i in range(len(B))]

        def do_push(i, t_to):
            dt = t_to - self.tb[i]
            if dt > 0:
                push(B[i], self.fields, float(self.tb[i]) * T, float(dt) * T,
                     self.pusher)
                self.events.append((t_to, 'bunch', i))
                self.tb[i] = t_to
            cur[i] = step_of(i)
        while True:
            cand = []
            for i in range(len(B)):
                if self.tb[i] < 1:
                    cand.append((min(self.tb[i] + cur[i], F(1)), 0, i))
            for j, f in enumerate(num):
                nxt = tf[j] + f.period
                if 1 < nxt < 1 + F(1, 10**6):
                    self.ambiguous = True
                if nxt <= 1:
                    cand.append((tf[j] + f.period, 1, j))
            if self.n_out > 0 and td + F(1, self.n_out) <= 1:
                cand.append((td + F(1, self.n_out), 2, 0))
            if not cand:
                break
            t, kind, idx = min(cand)
            for c in cand:
                if t < c[0] < t * (1 + F(1, 10**6)):
                    # Closer than the time resolution, but not equal.
                    self.ambiguous = True
            if 1 < t / (1 - F(1, 10**6)) and t < 1:
                self.ambiguous = True
            if kind == 0:
                do_push(idx, t)
            elif kind == 1:
                tf[idx] = t
                n_upd[idx] += 1
                num[idx].ref_update(B, float(t) * T)
                self.events.append((t, 'field', idx))
            else:
                td = t
                if self.push_before:
                    for i in range(len(B)):
                        do_push(i, t)
                self._out(t)
        return self
