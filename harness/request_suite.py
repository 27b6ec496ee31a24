"""Requests that cannot be honoured (Requests.tla)."""
import os
import random
import shutil

import numpy as np
import scipy.constants as ct

from vlib import SCRATCH, SEED, THOROUGH, guarded
from wake_t import (ActivePlasmaLens, GaussianPulse, ParticleBunch, PlasmaRamp,
                    PlasmaStage)
from wake_t.beamline_elements import FieldElement
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.physics_models.plasma_wakefields import (
    NonLinearColdFluidWakefield, Quasistatic2DWakefield)

N0 = 1e23
L = 1e-4
BAD = ['', 'RK4', 'Boris', 'rk45', 'leapfrog', 'quadratic', 'Linear', 'none ',
       'quasistatic', 'blowout', 'cold_fluid', 'Gaussian', 'parabolic', 'up']


def density(z):
    return N0 * np.ones_like(z)


def channel(z):
    return 1e8 * np.ones_like(z)


def pulse(**kw):
    return GaussianPulse(**dict(dict(xi_c=5e-6, a_0=.5, w_0=1e-5, tau=1e-14), **kw))


def make_bunch(rng, name='b'):
    g = np.random.default_rng(rng.randrange(2**31))
    n = 4
    return ParticleBunch(np.full(n, 1e5), g.normal(0, 1e-6, n), g.normal(0, 1e-6, n),
                         g.normal(-5e-6, 1e-6, n), g.normal(0, 1, n), g.normal(0, 1, n),
                         g.normal(200, 1, n), name=name)


def state(b):
    return tuple(np.asarray(getattr(b, k), dtype=float).tobytes() for k in (
        'x', 'y', 'xi', 'px', 'py', 'pz', 'w', 'prop_distance', 'x_ref', 'theta_ref'))


MODELS = ['none', 'simple_blowout', 'custom_blowout', 'focusing_blowout', 'cold_fluid_1d',
          'quasistatic_2d']
GRID = dict(r_max=2e-5, xi_min=-2e-5, xi_max=1.5e-5, n_r=5, n_xi=6)
CLASSES = {'cold_fluid_1d': NonLinearColdFluidWakefield,
           'quasistatic_2d': Quasistatic2DWakefield}


def model_args(m, las):
    if m in CLASSES:
        return dict(GRID, laser=las, dz_fields=L / 3)
    if m == 'custom_blowout':
        return {'lon_field': 1e6, 'lon_field_slope': 1e9, 'foc_strength': 1e3,
                'laser': las}
    if m == 'simple_blowout':
        return {'laser': las}
    return {}


class Trace:
    def __init__(self, rng, name):
        self.rng, self.ev, self.tok = rng, [], {}
        self.name = name
        self.b = make_bunch(rng)
        self.token()
        self.shared = pulse()
        self.kind = rng.choice(list(CLASSES))
        self.wake = self.make_wake(self.shared)

    def make_wake(self, las):
        return CLASSES[self.kind](density, laser=las, **GRID, dz_fields=L / 3)

    def token(self):
        return self.tok.setdefault(state(self.b), len(self.tok) + 1)

    def ask(self, what, work, value='', n=0, m=0):
        _, err = guarded(work)
        self.ev.append({'a': 'ask', 'what': what, 'value': value, 'n': n, 'm': m,
                        'ok': err is None, 'bunch': self.token()})

    def track(self, el, b=None, **kw):
        el.track(self.b if b is None else b, show_progress_bar=False, **kw)

    def name_of(self, good):
        r = self.rng
        near = [v for g in good for v in (g + '5', g.upper(), g[:-1], ' ' + g, g.title(),
                                          g.replace('_', '-')) if v not in good + ['None', 'inverse-square']]
        return r.choice(good) if r.random() < .35 else \
            r.choice(near if r.random() < .6 else [v for v in BAD if v not in good])

    def step(self):
        rng, kw = self.rng, dict(length=L, dt_bunch=L / ct.c / 2)
        what = rng.choice(['bunch_pusher', 'bunch_pusher', 'plasma_pusher', 'p_shape',
                           'wakefield_model', 'profile', 'density', 'channel', 'lens', 'sum',
                           'species', 'envelope', 'substeps', 'substeps', 'steps'])
        if what == 'bunch_pusher':
            v = self.name_of(['boris', 'rk4'])
            wake = self.make_wake(pulse())    # found out at the first push only
            if rng.random() < .5:
                self.ask(what, lambda: self.track(FieldElement(
                    fields=[wake], bunch_pusher=v, **kw)), v)
            else:
                self.ask(what, lambda: self.track(PlasmaStage(
                    density=N0, wakefield_model=wake, bunch_pusher=v, **kw)), v)
        elif what in ('plasma_pusher', 'p_shape'):
            good = ['rk4', 'ab5'] if what == 'plasma_pusher' else ['linear', 'cubic']
            v = self.name_of(good)
            las = self.shared if v not in good else pulse()
            model = 'quasistatic_2d'
            opt = {what: v}
            if what == 'p_shape' and rng.random() < .5:
                model, opt['beam_wakefields'] = 'cold_fluid_1d', True
            self.ask(what, lambda: self.track(PlasmaStage(
                density=N0, wakefield_model=model, laser=las, **GRID, **opt, **kw)), v)
        elif what == 'wakefield_model':
            v = self.name_of(MODELS)
            args = model_args(v, pulse())
            if v not in MODELS:
                args = {}
            self.ask(what, lambda: self.track(PlasmaStage(
                density=N0, wakefield_model=None if v == 'none' else v, **args, **kw)), v)
        elif what == 'profile':
            v = self.name_of(['inverse_square', 'exponential', 'gaussian', 'callable'])
            prof = v if v != 'callable' else \
                (lambda z, decay_length, density_top, density_down, position_down: density(z))
            self.ask(what, lambda: self.track(PlasmaRamp(
                profile=prof, ramp_type=rng.choice(['upramp', 'downramp']), plasma_dens_top=N0,
                plasma_dens_down=N0 / 2, wakefield_model='focusing_blowout', **kw)), v)
        elif what in ('density', 'channel'):
            v = rng.choice(['float', 'callable', 'text', 'nothing', 'list', 'tuple'])
            x = {'float': N0, 'callable': density, 'text': '1e23', 'nothing': None,
                 'list': [N0], 'tuple': (N0, N0)}[v]
            if what == 'density':
                m = rng.choice(['none', 'focusing_blowout', 'quasistatic_2d'])
                self.ask(what, lambda: self.track(PlasmaStage(
                    density=x, wakefield_model=None if m == 'none' else m,
                    **model_args(m, pulse()), **kw)), v)
            else:
                x = {'float': 1e8, 'callable': channel}.get(v, x)
                self.ask(what, lambda: self.track(PlasmaStage(
                    density=N0, wakefield_model='quasistatic_2d', parabolic_coefficient=x,
                    **model_args('quasistatic_2d', pulse()), **kw)), v)
        elif what == 'lens':
            v = rng.choice(['plain', 'wakefields with density', 'wakefields without density'])
            opt = {} if v == 'plain' else {'wakefields': True, 'wakefield_model': 'focusing_blowout'}
            if v == 'wakefields with density':
                opt['density'] = N0
            self.ask(what, lambda: self.track(ActivePlasmaLens(
                foc_strength=1e3, **opt, **kw)), v)
        elif what == 'sum':
            v = rng.choice(['same', 'wavelength', 'polarization'])
            opt = {'same': {}, 'wavelength': {'l_0': .4e-6},
                   'polarization': {'polarization': 'circular'}}[v]
            self.ask(what, lambda: self.track(PlasmaStage(
                density=N0, wakefield_model='cold_fluid_1d',
                **model_args('cold_fluid_1d', pulse() + pulse(**opt)), **kw)), v)
        elif what == 'species':
            v = rng.choice(['different names', 'equal names'])
            other = make_bunch(rng, 'b' if v == 'equal names' else 'c')
            d = os.path.join(SCRATCH, f'req_{rng.randrange(10**9)}')
            self.ask(what, lambda: FieldElement(fields=[], n_out=1, **kw).track(
                [self.b, other], opmd_diag=OpenPMDDiagnostics(write_dir=d),
                show_progress_bar=False), v)
            shutil.rmtree(d, ignore_errors=True)
        elif what == 'envelope':
            v = rng.choice(['after grid', 'before grid'])

            def work():
                p = pulse()
                if v == 'after grid':
                    p.set_envelope_solver_params(
                        GRID['xi_min'], GRID['xi_max'], GRID['r_max'], 6, 5, L / ct.c)
                p.initialize_envelope()
            self.ask(what, work, v)
        elif what == 'substeps':
            n = rng.choice([-1, 0, 0, 1, 2, 3])
            las = self.shared if n < 1 else pulse()
            self.ask(what, lambda: self.track(PlasmaStage(
                density=N0, wakefield_model=self.kind, laser_envelope_substeps=n,
                **model_args(self.kind, las), **kw)), n=n)
        else:
            m, n = rng.choice([1, 2]), rng.choice([0, 1, 2, 3])
            bs = [self.b, make_bunch(rng, 'c')][:m]
            self.ask(what, lambda: FieldElement(
                L, dt_bunch=[L / ct.c / 2] * n, fields=[self.wake if n != m else
                                                        self.make_wake(pulse())]).track(
                bs, show_progress_bar=False), n=n, m=m)

    def use(self):
        fresh = self.make_wake(pulse())
        c = self.b.copy()
        kw = dict(length=L, dt_bunch=L / ct.c / 2)
        _, err = guarded(lambda: (self.track(FieldElement(fields=[fresh], **kw), c),
                                  self.track(FieldElement(fields=[self.wake], **kw))))
        if err:
            self.ev.append({'a': 'fail'})
            return err
        want = self.tok.setdefault(state(c), len(self.tok) + 1)
        self.ev.append({'a': 'use', 'got': self.token(), 'want': want})


def trace(rng, name):
    t = Trace(rng, name)
    for _ in range(rng.randint(5, 9)):
        t.step()
    err = t.use()
    return {'id': name, 'cfg': {'kind': t.kind}, 'ev': t.ev, 'error': err}


def run(chk, pid):
    chk.model('MCRequests', workers=2)
    rng = random.Random(SEED * 15485863 + 35)
    n = 400 if THOROUGH else 90
    chk.validate('TraceRequests', [trace(rng, f'req_{SEED}_{i}') for i in range(n)])
