"""Pushers in uniform fields, lenses and quadrupoles (Push.tla)."""
import random

import numpy as np
import scipy.constants as ct
from scipy.integrate import solve_ivp

from vlib import OFF, SEED, THOROUGH, guarded
from phys import DIRS, ENER, code
from wake_t import ActivePlasmaLens
from wake_t.beamline_elements import FieldElement, FieldQuadrupole, Quadrupole
from wake_t.fields.analytical_field import AnalyticalField
from wake_t.particles.particle_bunch import ParticleBunch

T0 = 1e-12
CT = ct.c * T0
E0 = ct.m_e * ct.c / (ct.e * T0)
B0 = E0 / ct.c
L0 = 1e-2
EPS = 1e-10


def uniform(E, B):
    def const(v):
        if v == 0:
            return None

        def f(x, y, z, t, fld, k):
            for i in range(x.shape[0]):
                fld[i] += v
        return f
    return AnalyticalField(*[const(e * E0) for e in E],
                           *[const(b * B0) for b in B])


def graded(A):
    """Fields A[k] = (value, d/dx, d/dy, d/dxi, d/dt), in units of E0, B0, c T0."""
    def comp(a, unit):
        def f(x, y, z, t, fld, k):
            for i in range(x.shape[0]):
                fld[i] += unit * (a[0] + (a[1] * x[i] + a[2] * y[i] + a[3] * z[i]) / CT
                                  + a[4] * t / T0)
        return f
    return AnalyticalField(*[comp(a, E0 if k < 3 else B0) for k, a in enumerate(A)])


class Motion:
    def __init__(self, rng, name):
        self.rng = rng
        self.zq = rng.choice([-1, -1, 1, 2, -3])
        self.mm = rng.choice([1, 1, 2, 5])
        n = rng.choice([1, 1, 2, 4])
        self.ds = [rng.randint(1, 8) for _ in range(n)]
        self.e = rng.randint(1, 5)
        self.u = [np.array(DIRS[d - 1][:3], dtype=float) for d in self.ds]
        self.P = np.array([DIRS[d - 1][3] for d in self.ds])
        self.cfg = {'zq': self.zq, 'mm': self.mm, 'ds': self.ds, 'e': self.e}
        self.ev = []
        self.script = []
        z = [np.zeros(n) for _ in range(6)]
        self.b = ParticleBunch(np.ones(n), *z, name='b',
                               q_species=self.zq * ct.e,
                               m_species=self.mm * ct.m_e)
        self.reset()
        self.err = None

    def reset(self, x=None, y=None):
        e = ENER[self.e - 1]
        b = self.b
        n = len(self.u)
        b.x[:] = 0 if x is None else x
        b.y[:] = 0 if y is None else y
        b.xi[:] = 0
        for k, a in enumerate((b.px, b.py, b.pz)):
            a[:] = [e[0] / e[1] * self.u[i][k] / self.P[i] for i in range(n)]

    def track(self, el):
        _, self.err = guarded(el.track, self.b, show_progress_bar=False)
        if self.err:
            self.ev.append({'a': 'fail'})
            return False
        return True

    def p(self):
        return np.array([self.b.px, self.b.py, self.b.pz]).T

    def r(self, length):
        """Lab displacement (in c*T0) since the start at the origin."""
        return np.array([self.b.x, self.b.y, self.b.xi + length]).T / CT

    def element(self, tau, E, B, n, field=None):
        return FieldElement(length=tau * CT, dt_bunch=tau * T0 / n * (1 + 1e-12),
                            bunch_pusher=self.push, n_out=self.rng.choice([0, 1, 2]),
                            fields=[field] if field else
                            [uniform(E, B)] if any(E) or any(B) else [])

    def step(self, kind):
        rng = self.rng
        self.push = rng.choice(['boris', 'rk4'])
        self.script.append([kind, self.push])
        pn, pd, gn = ENER[self.e - 1]
        den = gn * self.P
        nz = rng.random()
        vec = lambda: [rng.randint(-9, 9) for _ in range(3)]
        if kind == 'rate':
            E = [0, 0, 0] if nz < .2 else vec()
            B = [0, 0, 0] if nz > .8 else vec()
            self.reset()
            p0 = self.p()
            el = FieldElement(length=EPS * CT, dt_bunch=EPS * T0, n_out=1,
                              bunch_pusher=self.push, fields=[uniform(E, B)])
            if not self.track(el):
                return False
            dp = (self.p() - p0) / EPS * self.mm * den[:, None]
            dr = self.r(0) / EPS * den[:, None]
            dxi = dr[:, 2].copy()
            dr[:, 2] += den
            self.ev.append({'a': 'rate', 'E': E, 'B': B, 'dp': ints(dp),
                            'dr': ints(dr), 'dxi': [code(v) for v in dxi]})
        elif kind == 'kick':
            E, tau = vec(), rng.randint(1, 5)
            self.reset()
            p0 = self.p()
            el = FieldElement(length=tau * CT, dt_bunch=T0 * rng.choice([.3, 1, 7]),
                              bunch_pusher=self.push, n_out=rng.choice([1, 3]),
                              fields=[uniform(E, [0, 0, 0])])
            if not self.track(el):
                return False
            self.ev.append({'a': 'kick', 'E': E, 'tau': tau,
                            'dp': ints((self.p() - p0) * self.mm, .001)})
        elif kind == 'free':
            tau = rng.randint(1, 9)
            self.reset()
            el = FieldElement(length=tau * CT, dt_bunch=T0 * rng.choice([.3, 1, 17]),
                              bunch_pusher=self.push, n_out=rng.choice([1, 2]),
                              fields=[])
            if not self.track(el):
                return False
            self.ev.append({
                'a': 'free', 'tau': tau,
                'dr': ints(self.r(tau * CT) * den[:, None], .01),
                'dxi': [code(v, .01) for v in self.b.xi / CT * den],
                'p': ints(self.p() * pd * self.P[:, None], .001)})
        elif kind == 'turn':
            k, s, B = rng.randint(0, 2), rng.choice([-1, 1]), rng.choice([.5, 1, 3])
            tau = np.pi / 2 * self.mm * gn / pd / (abs(self.zq) * B)
            self.reset()
            Bv = [0., 0., 0.]
            Bv[k] = s * B
            el = self.element(tau, [0, 0, 0], Bv,
                              96 if self.push == 'boris' else 10)
            if not self.track(el):
                return False
            sc = B * pd / self.mm * self.P
            dr = self.r(tau * CT) * sc[:, None]
            for j in range(3):
                dr[:, j] *= abs(self.zq) / (np.pi / 2) if j == k else self.zq * s
            p = self.p() * pd * self.P[:, None]
            self.ev.append({'a': 'turn', 'k': k + 1, 's': s, 'p': ints(p, .3),
                            'dr': ints(dr, .3)})
            new = np.round(p / pn)
            if np.max(np.abs(new - p / pn)) > .1:
                return False
            self.u = list(new)
        elif kind == 'boost':
            if len(self.u) > 1:
                return True
            e2 = rng.choice([i for i in range(1, 6) if i != self.e])
            n2 = ENER[e2 - 1]
            dp = n2[0] / n2[1] - pn / pd
            mag = rng.choice([.5, 1., 3.])
            E = mag * np.sign(dp) * np.sign(self.zq)   # along the motion
            tau = abs(dp) * self.mm / (abs(self.zq) * mag)
            self.reset()
            el = self.element(tau, list(E * self.u[0] / self.P[0]), [0, 0, 0],
                              160 if self.push == 'boris' else 16)
            if not self.track(el):
                return False
            p = self.p() * n2[1] * self.P[:, None]
            dr = (self.r(tau * CT) * self.zq * E / self.mm * pd * n2[1]
                  * self.P[:, None])
            self.ev.append({'a': 'boost', 'e': e2, 'p': ints(p, .05),
                            'dr': ints(dr, .3)})
            self.e = e2
        elif kind == 'gyrate':
            # Any angle per step, any direction of the field.
            B = np.array(vec(), dtype=float) * rng.choice([.1, 1, 10])
            if not any(B):
                B[rng.randrange(3)] = 1.
            n = rng.choice([1, 2, 5])
            self.reset()
            p0 = self.p()
            if self.push == 'boris':
                tau = rng.choice([.3, 2., 11.])
            else:
                # a small angle per step
                tau = .01 * n * self.mm / np.linalg.norm(self.zq * B)
            el = self.element(tau, [0, 0, 0], list(B), n)
            if not self.track(el):
                return False
            p1 = self.p()
            b = B / np.linalg.norm(B)
            mag = np.linalg.norm(p0, axis=1)
            # With RK4 the length changes with the sixth power of the angle.
            self.ev.append({
                'a': 'gyrate', 'push': self.push, 'n': n,
                'length': [dev(v) for v in np.linalg.norm(p1, axis=1) / mag - 1],
                'along': [dev(v) for v in (p1 - p0) @ b / mag]})
        elif kind == 'order':
            E = np.array(vec(), dtype=float)
            B = np.array(vec(), dtype=float)
            if not any(E) or not any(B):
                return True
            # a phase of about 0.2 rad in all
            self.reset()
            p0 = self.p()
            tau = .22 * self.mm / abs(self.zq) / max(np.linalg.norm(E), np.linalg.norm(B))
            A = np.zeros((6, 5))
            A[:, 0] = [*E, *B]
            field = None
            if rng.random() < .7:
                # varying in space and time
                A[:, 1:] = np.array([[rng.uniform(-1, 1) for _ in range(4)] for _ in range(6)]) \
                    * max(np.linalg.norm(E), np.linalg.norm(B)) / tau * .5
                field = graded(A.tolist())
            ref = exact(p0, self.zq / self.mm, A, tau)
            err = []
            for n in (4, 8):
                self.reset()
                if not self.track(self.element(tau, list(E), list(B), n, field)):
                    return False
                d = np.concatenate([self.p(), self.r(tau * CT) / tau], 1) - ref
                err.append(np.max(np.abs(d), axis=1) / max(1, np.max(np.abs(p0))))
            self.ev.append({'a': 'order', 'push': self.push,
                            'e1': [dev(v, 1e-11) for v in err[0]],
                            'e2': [dev(v, 1e-11) for v in err[1]]})
        elif kind == 'lens':
            el_kind = rng.choice(['lens', 'quad'])
            g = rng.choice([-7, -3, -1, 1, 2, 5])
            n = len(self.u)
            pos = [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(n)]
            self.reset([q[0] * L0 for q in pos], [q[1] * L0 for q in pos])
            p0 = self.p()
            cls = ActivePlasmaLens if el_kind == 'lens' else FieldQuadrupole
            el = cls(length=EPS * CT, foc_strength=g * B0 / L0,
                     dt_bunch=rng.choice(['auto', EPS * T0]),
                     bunch_pusher=self.push)
            if not self.track(el):
                return False
            dp = (self.p() - p0) / EPS * self.mm * den[:, None]
            self.ev.append({'a': 'lens', 'kind': el_kind, 'g': g, 'pos': pos,
                            'dp': ints(dp)})
        elif kind == 'focus':
            el_kind = rng.choice(['lens', 'quad'])
            g = rng.choice([-7, -3, -1, 1, 2, 5])
            phase = rng.choice(['quarter', 'ln2'])
            grad = g * rng.choice([1., 10.])
            X, S, X2, S2, err = self.focus(el_kind, grad, phase)
            if err:
                self.err = err
                self.ev.append({'a': 'fail'})
                return False
            self.ev.append({'a': 'focus', 'kind': el_kind, 'g': g,
                            'phase': phase, 'X': X, 'S': S, 'X2': X2, 'S2': S2})
        elif kind == 'agree':
            A, T, err = self.agree()
            if err:
                self.err = err
                self.ev.append({'a': 'fail'})
                return False
            self.ev.append({'a': 'agree', 'A': A, 'T': T})
        return True

    def focus(self, el_kind, grad, phase):
        rng = self.rng
        n = 3
        pz = rng.choice([500., 3000.])
        k = np.sqrt(abs(self.zq * ct.e * grad) / (self.mm * ct.m_e * ct.c * pz))
        x0 = 1e-7
        s0 = x0 * k
        X = [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(n)]
        S = [[rng.randint(-9, 9), rng.randint(-9, 9)] for _ in range(n)]
        length = (np.pi / 2 if phase == 'quarter' else np.log(2)) / k
        a = lambda l, j: np.array([v[j] for v in l], dtype=float)
        # Some bunches carry a particle of much higher energy on axis.
        j = rng.choice([None, 0, n])
        c = [np.ones(n), a(X, 0) * x0, a(X, 1) * x0, np.zeros(n),
             a(S, 0) * s0 * pz, a(S, 1) * s0 * pz, np.full(n, pz)]
        if j is not None:
            c = [np.insert(v, j, w) for v, w in zip(c, [1, 0, 0, 0, 0, 0, 1e4 * pz])]
        b = ParticleBunch(*c, name='f', q_species=self.zq * ct.e,
                          m_species=self.mm * ct.m_e)
        cls = ActivePlasmaLens if el_kind == 'lens' else FieldQuadrupole
        el = cls(length=length, foc_strength=grad, bunch_pusher=self.push,
                 dt_bunch=rng.choice(['auto', length / ct.c / 80]),
                 n_out=rng.choice([1, 4]))
        _, err = guarded(el.track, b, show_progress_bar=False)
        f = 1 if phase == 'quarter' else 4
        if j is not None:
            b.set_phase_space(*(np.delete(v, j) for v in (b.x, b.y, b.xi, b.px, b.py, b.pz)))
        X2 = [[code(b.x[i] / x0 * f), code(b.y[i] / x0 * f)] for i in range(n)]
        S2 = [[code(b.px[i] / pz / s0 * f), code(b.py[i] / pz / s0 * f)]
              for i in range(n)]
        return X, S, X2, S2, err

    def agree(self):
        rng = self.rng
        n = 4
        g = np.random.default_rng(rng.randrange(2**31))
        order = rng.choice([1, 2])
        gamma = rng.choice([300., 2000.])
        pref = np.sqrt(gamma**2 - 1)
        grad = rng.choice([-40., 5., 80.])
        length = rng.choice([.05, .2])
        x0 = 1e-6
        gam = gamma * (1 + (g.choice([-1e-3, 0, 1e-3], n) if order == 2 else 0))
        slope = g.uniform(-1e-5, 1e-5, (2, n))
        px, py = slope * pref
        pz = np.sqrt(np.full(n, gam)**2 - 1 - px**2 - py**2)
        pos = g.uniform(-9, 9, (2, n)) * x0

        def bunch():
            return ParticleBunch(np.ones(n), pos[0].copy(), pos[1].copy(),
                                 np.zeros(n), px.copy(), py.copy(), pz.copy(),
                                 name='a')
        a, t = bunch(), bunch()
        fq = FieldQuadrupole(length=length, foc_strength=grad,
                             dt_bunch=length / ct.c / 200,
                             bunch_pusher=self.push, n_out=1)
        tq = Quadrupole(length=length, k1=ct.e * grad / (pref * ct.m_e * ct.c),
                        gamma_ref=gamma, n_out=rng.choice([None, 1, 2]),
                        order=order)
        _, err = guarded(fq.track, a, show_progress_bar=False)
        if not err:
            _, err = guarded(tq.track, t, show_progress_bar=False)

        def obs(b):
            return [[near(b.x[i] / x0 * 2e2), near(b.y[i] / x0 * 2e2),
                     near(b.px[i] / pref / 1e-5 * 2e2),
                     near(b.py[i] / pref / 1e-5 * 2e2)] for i in range(n)]
        return obs(a), obs(t), err


def dev(v, unit=1e-9):
    """Size of a deviation in units of `unit`."""
    return int(min(abs(v) / unit, 2e8)) if np.isfinite(v) else int(2e8)


def exact(p, k, A, tau):
    """Momentum and displacement/tau after a time tau in the fields A."""
    def f(t, s):
        fld = A @ np.array([1., s[3], s[4], s[5] - t, t])
        E, B = fld[:3], fld[3:]
        u = s[:3] / np.sqrt(1 + s[:3] @ s[:3])
        return np.concatenate([k * (E + np.cross(u, B)), u])
    out = []
    for q in p:
        s = solve_ivp(f, (0, tau), np.concatenate([q, np.zeros(3)]),
                      method='DOP853', rtol=1e-13, atol=1e-15).y[:, -1]
        s[3:] /= tau
        out.append(s)
    return np.array(out)


def near(v):
    return int(round(v)) if np.isfinite(v) and abs(v) < 2**29 else OFF


def ints(a, tol=.2):
    return [[code(v, tol) for v in row] for row in a]


def motion_trace(rng, name, kinds, n):
    m = Motion(rng, name)
    for _ in range(n):
        if not m.step(rng.choice(kinds)):
            break
    return {'id': name, 'cfg': m.cfg, 'ev': m.ev, 'error': m.err,
            'scenario': m.script}


def run(chk, pid):
    chk.model('MCPush')
    rng = random.Random(SEED * 104729 + 7)
    n = 400 if THOROUGH else 80
    if pid == 'P14':
        kinds = ['rate', 'rate', 'rate', 'kick', 'free', 'turn', 'turn', 'boost',
                 'boost', 'gyrate', 'gyrate', 'order']
    else:
        kinds = ['lens', 'lens', 'focus', 'agree']
    traces = [motion_trace(rng, f'motion_{SEED}_{i}', kinds, 16)
              for i in range(n)]
    chk.validate('TracePush', traces)
