"""Life of a laser envelope through plasma stages (Laser.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import SEED, THOROUGH, guarded
from wake_t import ParticleBunch, PlasmaStage, GaussianPulse, Beamline
from wake_t.physics_models.laser.laser_pulse import LaguerreGaussPulse
from wake_t.fields.rz_wakefield import RZWakefield
from wake_t.physics_models.plasma_wakefields import (
    NonLinearColdFluidWakefield, Quasistatic2DWakefield)

TICK = 1e-6        # m


# -- reference envelope ---------------------------------------------------
def ref_step(a, a_old, chi, k0, kp, zmin, zmax, rmax, dt, phase, first):
    """One step of the envelope equation by dense linear algebra."""
    nz, nr = chi.shape
    dz, dr, dt = (zmax - zmin) * kp / (nz - 1), rmax * kp / nr, dt * ct.c * kp
    th = np.unwrap(np.angle(a[:, 0])) if phase else np.zeros(nz + 2)
    half = 1 / (2 * (np.arange(nr) + .5))
    lap = (np.diag(np.full(nr, -2.)) + np.diag((1 - half)[1:], -1)
           + np.diag((1 + half)[:-1], 1)) / dr**2 / 2
    new = np.zeros_like(a)
    f = 2. if first else 1.
    for j in range(nz - 1, -1, -1):
        t1, t2 = th[j + 1] - th[j], th[j + 2] - th[j + 1]
        d = (1.5 * t1 - .5 * t2) / dz
        diag = f * (1j * k0 / kp / dt - 1.5 / dz / dt + 1j * d / dt)
        x = np.diag(-chi[j] / 2)
        src = a if first else a_old
        m_new = lap + x + np.eye(nr) * (diag - (0 if first else 1 / dt**2))
        m_old = lap + x + np.eye(nr) * (-diag - (0 if first else 1 / dt**2))
        rhs = -m_old @ src[j]
        if not first:
            rhs = rhs - 2 / dt**2 * a[j]
        rhs = rhs - f * 2 * np.exp(-1j * t1) / dz / dt * (new[j + 1] - src[j + 1])
        rhs = rhs + f * .5 * np.exp(-1j * (t1 + t2)) / dz / dt * (new[j + 2] - src[j + 2])
        new[j] = np.linalg.solve(m_new, rhs)
    return new


def ref_advance(a, a_old, chi, n_p, g, dt, sub, phase, first, l0):
    kp = np.sqrt(ct.e**2 * n_p / (ct.m_e * ct.epsilon_0)) / ct.c
    for _ in range(sub):
        new = ref_step(a, a_old, chi, 2 * np.pi / l0, kp, g['xmin'], g['xmax'],
                       g['rmax'], dt / sub, phase, first)
        a, a_old = new, a
    return a, a_old


def lin(x0, dx, n, x):
    lo = np.clip(np.floor((x - x0) / dx + 1e-9).astype(int), 0, n - 2)
    u = (x - x0) / dx - lo
    m = np.zeros((len(x), n))
    m[np.arange(len(x)), lo] = 1 - u
    m[np.arange(len(x)), lo + 1] += u
    return m


def axes(g, nz, nr):
    dr = g['rmax'] / nr
    return (np.linspace(g['xmin'], g['xmax'], nz),
            np.linspace(dr / 2, g['rmax'] - dr / 2, nr))


def resample(f, g, nz, nr):
    """Values on a grid of the same extent with nz x nr values."""
    if f.shape == (nz, nr):
        return f
    z0, r0 = axes(g, *f.shape)
    z1, r1 = axes(g, nz, nr)
    mz = lin(z0[0], z0[1] - z0[0], f.shape[0], z1)
    mr = lin(r0[0], r0[1] - r0[0], f.shape[1], r1)
    return mz @ f @ mr.T


def same(a, b):
    return a.shape == b.shape and np.all(np.isfinite(a)) and \
        np.allclose(a, b, rtol=1e-7, atol=1e-8 * max(np.max(np.abs(b)), 1e-30))


# -- recording --------------------------------------------------------------
class Run:
    """Identifies the moves of the envelope of a pulse."""

    def __init__(self, pulse, stages, rng):
        self.pulse, self.stages, self.ev = pulse, stages, []
        self.ref = None            # (a, a_old) of the reference
        self.seen = None           # last observed envelope
        self.chi, self.n_p = None, None
        self.lost = False
        self.rng = np.random.default_rng(rng.randrange(2**31))

    def public(self, a, s):
        return resample(a[:-2], s['g'], *s['plasma'])

    def observe(self, k, field):
        s = self.stages[k]
        env = np.array(self.pulse.get_envelope())
        moves, cands = [], []
        if not self.lost and env.shape == tuple(s['plasma']):
            if self.ref is not None and same(env, self.public(self.ref[0], s)):
                moves.append(({'kind': 'stay', 'dt': 0, 'sub': 0, 'phase': False},
                              self.ref))
            z, r = axes(s['g'], *s['solver'])
            zz, rr = np.meshgrid(z, r, indexing='ij')
            a = np.zeros((s['solver'][0] + 2, s['solver'][1]), complex)
            a[:-2] = self.pulse.envelope_function(zz, rr, 0.)
            if same(env, self.public(a, s)):
                moves.append(({'kind': 'init', 'dt': 0, 'sub': 0, 'phase': False},
                              (a, np.zeros_like(a))))
            if not moves and self.ref is not None:
                chi = resample(self.chi, s['g'], *s['solver'])
                for c in {(t['period'], t['sub'], t['phase'])
                          for t in self.stages}:
                    for kind in ('first', 'centred'):
                        new = ref_advance(
                            *self.ref, chi, self.n_p, s['g'], c[0] * TICK / ct.c,
                            c[1], c[2], kind == 'first', self.pulse.l_0)
                        if same(env, self.public(new[0], s)):
                            moves.append(({'kind': kind, 'dt': c[0], 'sub': c[1],
                                           'phase': c[2]}, new))
        if moves:
            # several moves may fit: go on from the closest
            self.ref = min((m[1] for m in moves), key=lambda q: np.max(
                np.abs(env - self.public(q[0], s))))
        else:
            self.lost = True
        self.seen = env
        self.chi = np.array(field.chi[2:-2, 2:-2])
        self.n_p = float(field.n_p)
        self.ev.append({'a': 'eval', 'k': k + 1, 'shape': list(env.shape),
                        'moves': [m for m, _ in moves]})

    def still(self):
        env = self.pulse.get_envelope()
        if self.seen is None:
            return env is None
        return bool(np.array_equal(env, self.seen))


def spy(base, run, k):
    """The wakefield class `base`, reporting each of its evaluations."""
    class Spy(base):
        def _calculate_wakefield(self, bunches):
            if base is RZWakefield:
                self.chi[2:-2, 2:-2] = run.rng.uniform(0., 3.,
                                                       (self.n_xi, self.n_r))
            else:
                super()._calculate_wakefield(bunches)
            run.observe(k, self)
    return Spy


def make_stages(rng, n, odd=None):
    """Random stages, most of them on the same grid (the second not, if asked)."""
    g = {'xmin': -40e-6, 'xmax': 20e-6, 'rmax': 50e-6}
    plasma = [rng.randint(4, 8), rng.randint(3, 6)]
    solver = list(plasma)
    if rng.random() < .4 or odd == 4:
        solver = [rng.randint(4, 9), rng.randint(3, 7)]
        if odd == 4 and solver == plasma:
            solver[1] += 1
    out, grids = [], {}
    for j in range(n):
        length = 60 * rng.randint(1, 4)
        nup = rng.choice([u for u in (1, 2, 3, 4, 5, 6)
                          if length % u == 0])
        hi = length // (nup - 1) if nup > 1 else length * 3
        dz = rng.randint(length // nup + 1, max(hi - 1, length // nup + 1))
        s = {'len': length, 'dz': dz, 'sub': rng.choice([1, 1, 2, 3]),
             'evolve': rng.random() < .8, 'phase': rng.random() < .6,
             'g': g, 'plasma': list(plasma), 'solver': list(solver)}
        u = rng.random()
        if odd is not None and odd > 4 and j < 2:   # one difference only
            u = 1.
            if j == 0:
                s.update(evolve=True, len=120, dz=rng.choice([40, 50, 60, 70]))
            else:
                s.update({q: out[0][q] for q in ('len', 'dz', 'sub', 'evolve', 'phase')})
                if odd == 5:
                    s['sub'] = s['sub'] % 3 + 1
                elif odd == 6:
                    s['phase'] = not s['phase']
                elif odd == 7:
                    s['evolve'] = False
                elif odd == 8:
                    s['dz'] = 100 - s['dz'] % 60
            length, dz = s['len'], s['dz']
        elif odd is not None and j < 2:
            u = (.05, .09, .13, .17, .21)[odd] if j else 1.
        if u < .06:
            s['g'] = dict(g, rmax=60e-6)
        elif u < .1:
            s['g'] = dict(g, xmin=-41e-6)
        elif u < .14:
            s['g'] = dict(g, xmax=22e-6)
        elif u < .18:
            s['plasma'] = [plasma[0] + 1, plasma[1]]
            if solver == plasma:
                s['solver'] = list(s['plasma'])
        elif u < .22 and solver != plasma:
            s['solver'] = [solver[0], solver[1] + 1]
        key = str((s['g'], s['plasma'], s['solver']))
        s['grid'] = grids.setdefault(key, len(grids) + 1)
        s['period'] = length // -(-length // dz)
        s['density'] = rng.choice([1., 2., .5]) * 2e23
        s['ramp'] = rng.random() < .4
        out.append(s)
    return out


def build(run, k, model, rng_model):
    s = run.stages[k]
    base = {'rz': RZWakefield, 'fluid': NonLinearColdFluidWakefield,
            'qs': Quasistatic2DWakefield}[model]
    n0, L = s['density'], s['len'] * TICK

    def density(z):
        return n0 * (1 + .5 * np.asarray(z, dtype=float) / L if s['ramp']
                     else np.ones_like(z, dtype=float))
    kw = {}
    if s['solver'] != s['plasma']:
        if s['solver'][0] != s['plasma'][0]:
            kw['laser_envelope_nxi'] = s['solver'][0]
        if s['solver'][1] != s['plasma'][1]:
            kw['laser_envelope_nr'] = s['solver'][1]
    fld = spy(base, run, k)(
        density, r_max=s['g']['rmax'], xi_min=s['g']['xmin'],
        xi_max=s['g']['xmax'], n_r=s['plasma'][1], n_xi=s['plasma'][0],
        dz_fields=s['dz'] * TICK, laser=run.pulse, laser_evolution=s['evolve'],
        laser_envelope_substeps=s['sub'], laser_envelope_use_phase=s['phase'],
        **kw)
    return PlasmaStage(L, density, wakefield_model=fld, dt_bunch=L / ct.c / 2,
                       n_out=1)


def bunch():
    one = np.ones(3)
    return ParticleBunch(one * 1e5, one * 1e-6, one * 0, one * -10e-6, one * 0,
                         one * 0, one * 300)


def trace(rng, name, model, odd=None):
    stages = make_stages(rng, rng.randint(2, 4), odd)
    order = [rng.randrange(len(stages)) for _ in range(rng.randint(2, 4))]
    if odd is not None:
        order = [0, 1] + ([0] if odd > 4 else []) + order[:2]
    cls = rng.choice(['gauss', 'lg', 'sum'])
    kw = dict(xi_c=-5e-6, a_0=rng.choice([.1, .7]), w_0=20e-6, tau=30e-15,
              z_foc=rng.choice([0., 3e-4]), cep_phase=rng.choice([0., 1.]),
              polarization=rng.choice(['linear', 'circular']))
    pulse = GaussianPulse(**kw)
    if cls == 'lg':
        pulse = LaguerreGaussPulse(p=1, **kw)
    elif cls == 'sum':
        pulse = pulse + GaussianPulse(**dict(kw, xi_c=-12e-6, cep_phase=.4))
    run = Run(pulse, stages, rng)
    elements = {}
    b = bunch()
    err = None
    for k in order:
        if k not in elements or rng.random() < .5:
            elements[k] = build(run, k, model, rng)
        run.ev.append({'a': 'enter', 'k': k + 1})
        n0 = len(run.ev)
        el = elements[k]
        if rng.random() < .3:
            el = Beamline([el])
        _, err = guarded(el.track, b, opmd_diag=False, show_progress_bar=False)
        if err and 'ValueError' in err.splitlines()[-1] and len(run.ev) == n0:
            run.ev.append({'a': 'rejected', 'k': k + 1, 'still': run.still()})
            err = None
            elements.pop(k)
            continue
        if err:
            run.ev.append({'a': 'fail'})
            break
        run.ev.append({'a': 'exit', 'k': k + 1, 'still': run.still()})
        if rng.random() < .3:
            _, err = guarded(pulse.initialize_envelope)
            if err:
                run.ev.append({'a': 'fail'})
                break
            run.ev.append({'a': 'reinit', 'still': run.still()})
        if run.lost:
            break
    keep = ('len', 'dz', 'sub', 'grid', 'evolve', 'phase', 'plasma')
    return {'id': name, 'error': err, 'ev': run.ev,
            'cfg': {'stages': [{q: s[q] for q in keep} for s in stages]},
            'scenario': {'stages': stages, 'order': order, 'model': model,
                         'pulse': cls}}


def run(chk, pid):
    chk.model('MCLaser', workers=2)
    rng = random.Random(SEED * 32452843 + 18)
    n = 600 if THOROUGH else 160
    traces = []
    for i in range(n):
        model = 'qs' if i % 12 == 5 else 'fluid' if i % 4 == 1 else 'rz'
        traces.append(trace(rng, f'laser_{model}_{SEED}_{i}', model,
                            i // 4 % 5 if i % 4 == 0 else
                            5 + i // 4 % 5 if i % 4 == 2 else None))
    chk.validate('TraceLaser', traces)
