"""Analytical blowout wakefields (Blowout.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, guarded
from wake_t import Beamline, GaussianPulse, ParticleBunch, PlasmaStage

SLIPS = [(3, 4, 1, 5), (4, 3, 2, 5), (5, 12, 1, 13)]     # k_p : k_0, slip
PZ = 1e7


def code(v, tol=.05):
    if not np.isfinite(v) or abs(v) > 2**30:
        return OFF
    n = int(round(v))
    return n if abs(v - n) <= tol else OFF


class Stage:
    def __init__(self, rng, dens, kp_k, half, xc, slip):
        self.kind = rng.choice(['simple', 'simple', 'custom', 'custom', 'focus'])
        self.lp = 2 * np.pi * ct.c / np.sqrt(dens * ct.e**2 / (ct.m_e * ct.epsilon_0))
        self.tick = self.lp / 2 / half
        self.grad = dens * ct.e / (2 * ct.epsilon_0)
        nz = [i for i in range(-6, 7) if i]
        self.d = {'kind': self.kind, 'half': half, 'xc': xc, 'off': 0,
                  'sn': slip[2], 'sd': slip[3], 'g': 0, 'e0': 0, 'e1': 0, 'xi0': 0}
        self.steps = rng.choice([1, 2, 3, 5])
        self.per = rng.choice([1, 2, 4, 11])
        self.sub = rng.choice([1, 1, 2])
        self.d['len'] = self.steps * self.per
        density = float(dens) if rng.random() < .5 else lambda z: np.ones_like(z) * dens
        kw = dict(length=self.d['len'] * self.tick, n_out=self.steps,
                  dt_bunch=self.per / self.sub * self.tick / ct.c * (1 + 1e-12),
                  bunch_pusher=rng.choice(['boris', 'rk4']))
        laser = GaussianPulse(xi_c=xc * self.tick, a_0=2., w_0=self.lp, tau=30e-15,
                              l_0=self.lp * kp_k)
        E = self.grad * self.tick
        if self.kind == 'simple':
            if rng.random() < .6:
                self.d['off'] = rng.choice(nz)
                kw['field_offset'] = self.d['off'] * self.tick
            self.obj = PlasmaStage(density=density, wakefield_model='simple_blowout',
                                   laser=laser, **kw)
        elif self.kind == 'custom':
            self.d.update(g=rng.choice(nz), e0=rng.randint(-6, 6), e1=rng.choice(nz))
            if rng.random() < .7:
                self.d['xi0'] = rng.choice(nz)
                kw['xi_fields'] = self.d['xi0'] * self.tick
            self.obj = PlasmaStage(
                density=density, wakefield_model='custom_blowout', laser=laser,
                lon_field=self.d['e0'] * E, lon_field_slope=self.d['e1'] * self.grad,
                foc_strength=self.d['g'] * self.grad / ct.c, **kw)
        else:
            self.obj = PlasmaStage(density=density, wakefield_model='focusing_blowout', **kw)


def blowout_trace(rng, name):
    dens = 10**rng.uniform(20, 25)
    a, b, sn, sd = slip = rng.choice(SLIPS)
    half = rng.choice([4, 8, 10])
    xc = rng.randint(-5, 5)
    stages = [Stage(rng, dens, a / b, half, xc, slip) for _ in range(rng.choice([1, 2, 3]))]
    n = rng.choice([1, 2, 4])
    zq, mm = rng.choice([-1, -1, 1, 3]), rng.choice([1, 1, 20])
    ps = [{'x': rng.randint(-9, 9), 'y': rng.randint(-9, 9), 'xi': rng.randint(-12, 4)}
          for _ in range(n)]
    tick = stages[0].tick
    cfg = {'stages': [s.d for s in stages], 'ps': ps}
    ev, err = [], None

    def make(ps):
        c = [np.array([p[k] for p in ps]) * tick for k in ('x', 'y', 'xi')]
        z = np.zeros(len(ps))
        return ParticleBunch(np.ones(len(ps)), *c, z, z.copy(), np.full(len(ps), PZ),
                             prop_distance=rng.choice([0., 7 * tick]),
                             q_species=zq * ct.e, m_species=mm * ct.m_e)
    cut = rng.choice([n, n, rng.randint(1, n)])
    bunches = [make(ps[:cut])] + ([make(ps[cut:])] if cut < n else [])
    order = [rng.randrange(len(stages)) for _ in range(rng.randint(1, 4))]
    for e in order:
        s = stages[e]
        line = rng.random() < .3
        obj = Beamline([s.obj]) if line else s.obj
        for b in bunches:     # back to the start
            c = make(ps[:cut] if b is bunches[0] else ps[cut:])
            b.set_phase_space(c.x, c.y, c.xi, c.px, c.py, c.pz)
        out, err = guarded(obj.track, bunches if len(bunches) > 1 else bunches[0],
                           show_progress_bar=False)
        if err:
            ev.append({'a': 'fail'})
            break
        lists = out if len(bunches) > 1 else [out]
        ev.append({'a': 'enter', 'e': e + 1})
        unit = zq * ct.e * s.grad * tick * (s.per * tick / ct.c) / (mm * ct.m_e * ct.c)
        for k in range(1, s.steps + 1):
            F = []
            for o in lists:
                for i in range(len(o[k].x)):
                    dp = [getattr(o[k], q)[i] - getattr(o[k - 1], q)[i]
                          for q in ('px', 'py', 'pz')]
                    F.append([code(dp[0] / unit), code(dp[1] / unit),
                              code(dp[2] / unit * 2 * s.d['sd'])])
            ev.append({'a': 'step', 't': k * s.per, 'F': F})
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err, 'scenario': [zq, mm, dens]}


def run(chk, pid):
    chk.model('MCBlowout')
    rng = random.Random(SEED * 31337 + 31)
    n = 1200 if THOROUGH else 200
    chk.validate('TraceBlowout', [blowout_trace(rng, f'blowout_{SEED}_{i}') for i in range(n)])
