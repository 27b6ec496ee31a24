"""Density along plasma stages and ramps (Density.tla)."""
import os
import random
import shutil

import h5py
import numpy as np
import scipy.constants as ct

from vlib import OFF, SCRATCH, SEED, THOROUGH, guarded
from wake_t import GaussianPulse, ParticleBunch, PlasmaRamp, PlasmaStage
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.fields.analytical_field import AnalyticalField

LASER = GaussianPulse(xi_c=0., a_0=1., w_0=1e-5, tau=1e-14, l_0=0.8e-6)
SPECIES = {'electron': (-ct.e, ct.m_e), 'positron': (ct.e, ct.m_e),
           'proton': (ct.e, ct.m_p)}
NAMES = {'invsq': 'inverse_square', 'exp': 'exponential', 'gauss': 'gaussian'}


class Recorder(AnalyticalField):
    def __init__(self):
        super().__init__()
        self.t = []

    def _gather(self, x, y, z, t, *fields):
        self.t.append(t)


def decay(e):
    if e['mode'] == 'decay':
        return e['d']
    return (e['pos'] or e['len']) / e['m']


def random_element(rng):
    k = rng.choice(['flat', 'table', 'up', 'up', 'down', 'down'])
    e = {'k': k, 'len': 2 * rng.randint(1, 3), 'type': 'float', 'channel': 'float',
         'model': rng.choice(['focusing_blowout', 'focusing_blowout', 'simple_blowout',
                              'custom_blowout', 'cold_fluid_1d', 'quasistatic_2d', 'none',
                              'field']),
         'v': rng.randint(1, 9), 'tab': [], 'prof': '', 'mode': '', 'd': 0, 'm': 1, 'pos': 0}
    if k == 'flat':
        e['type'] = rng.choice(['float', 'float', 'numpy'])
    elif k == 'table':
        e['type'] = 'callable'
    else:
        e['prof'] = rng.choice(['invsq', 'exp', 'gauss', 'custom'])
    if e['prof'] == 'gauss':
        e['len'] = rng.choice([2, 4])
    if e['prof'] in NAMES:
        e['mode'] = rng.choice(['decay', 'down', 'down'])
        if e['mode'] == 'decay':
            e['d'] = rng.randint(1, 3)
        else:
            e['m'] = rng.choice([1, 2])
            e['pos'] = rng.choice([0, 2, 2, 4])
    if k == 'table' or e['prof'] == 'custom':
        e['tab'] = [rng.randint(1, 9) for _ in range(e['len'] + 1)]
    if e['model'] == 'quasistatic_2d':
        e['channel'] = rng.choice(['float', 'callable'])
    u = rng.random()
    if u < .12:         # to be rejected
        if u < .04:
            e['model'] = rng.choice(['blowout', 'Quasistatic_2d', 'focusing'])
        elif u < .08 and e['prof']:
            e['prof'], e['mode'] = rng.choice(['linear', 'Gaussian', 'cosine']), 'decay'
            e['d'] = 1
        elif u < .08:
            e['type'] = rng.choice(['int', 'str', 'none', 'list'])
        elif e['model'] == 'quasistatic_2d':
            e['channel'] = rng.choice(['str', 'none', 'list'])
    return e


class Element:
    """Builds the real element and translates what it does to observations."""

    def __init__(self, rng, e, n0, tick):
        self.e, self.n0, self.tick = e, n0, tick
        self.dens, self.chan, self.args = [], [], []
        self.rec = Recorder()
        self.top = n0 * rng.choice([1., 2.])

    def table(self, z):
        z = np.asarray(z, dtype=float)
        self.dens.append(z.copy())
        k = np.clip(np.round(z / self.tick), 0, self.e['len']).astype(int)
        return np.array(self.e['tab'], dtype=float)[k] * self.n0

    def profile(self, z, decay_length=None, density_top=None, density_down=None,
                position_down=None):
        self.args.append((decay_length, density_top, density_down, position_down))
        return self.table(z)

    def channel(self, z):
        self.chan.append(np.asarray(z, dtype=float).copy())
        return np.asarray(z) * 0. + 1e7

    def ratio_down(self):
        m = self.e['m']
        return {'invsq': (1 + m)**2, 'exp': 2**m, 'gauss': 2**(m * m)}[self.e['prof']]

    def make(self, n_out=1, dt=None, push=True):
        e, L = self.e, self.e['len'] * self.tick
        kw = {'length': L, 'n_out': n_out, 'dt_bunch': 'auto' if dt is None else dt}
        model = e['model']
        if model == 'none':
            kw['wakefield_model'] = None
        elif model == 'field':
            kw['wakefield_model'] = AnalyticalField()
        else:
            kw['wakefield_model'] = model
        if model in ('simple_blowout', 'custom_blowout'):
            kw['laser'] = LASER
        if model == 'custom_blowout':
            self.slope = 1e4 * SPECIES[self.sp][1] * ct.c**2 / ct.e / (2 * self.tick) / self.tick
            kw.update(lon_field=0., lon_field_slope=self.slope, foc_strength=0.)
        if model in ('cold_fluid_1d', 'quasistatic_2d'):
            kw.update(r_max=4 * self.tick, xi_min=-3 * self.tick, xi_max=3 * self.tick,
                      n_r=4, n_xi=5, dz_fields=self.dz * self.tick * (1 + 1e-9))
            if self.weak_laser and e['len'] % self.dz == 0:
                kw['laser'] = GaussianPulse(xi_c=0., a_0=1e-6, w_0=1e-5, tau=1e-14,
                                            l_0=0.8e-6)
        if model == 'quasistatic_2d':
            kw['parabolic_coefficient'] = {
                'float': 0., 'callable': self.channel, 'str': 'flat', 'none': None,
                'list': [0.]}[e['channel']]
            kw['ppc'] = 1
        if self.external:
            kw['external_fields'] = [self.rec]
        if e['k'] in ('flat', 'table'):
            v = e['v'] * self.n0
            return PlasmaStage(density={
                'float': float(v), 'numpy': np.float64(v), 'callable': self.table,
                'int': int(v), 'str': str(v), 'none': None, 'list': [v]}[e['type']], **kw)
        kw['ramp_type'] = 'upramp' if e['k'] == 'up' else 'downramp'
        kw['profile'] = self.profile if e['prof'] == 'custom' else \
            NAMES.get(e['prof'], e['prof'])
        if e['prof'] == 'custom':
            self.given = {'decay_length': 3e-5, 'plasma_dens_top': self.top,
                          'plasma_dens_down': self.top / 7}
            if e['v'] > 4:
                self.given['position_down'] = 3 * self.tick
            kw.update(self.given)
        else:
            kw['plasma_dens_top'] = self.top
            if e['mode'] == 'decay':
                f = {'exp': 1 / np.log(2), 'gauss': 1 / np.sqrt(2 * np.log(2))}
                kw['decay_length'] = e['d'] * self.tick * f.get(e['prof'], 1.)
            else:
                kw['plasma_dens_down'] = self.top / self.ratio_down()
                if e['pos']:
                    kw['position_down'] = e['pos'] * self.tick
        return PlasmaRamp(**kw)

    def code(self, n):
        """Observation of a density."""
        n, p = float(n), self.e['prof']
        if not np.isfinite(n) or n <= 0:
            return OFF
        with np.errstate(all='ignore'):
            if p == 'invsq':
                v = decay(self.e)**2 * self.top / n
            elif p == 'exp':
                v = (self.top / n)**decay(self.e)
            elif p == 'gauss':
                v = (self.top / n)**(decay(self.e)**2)
            else:
                v = n / self.n0
        if not v < 2**28 or abs(v - round(v)) > .2 or abs(v - round(v)) > 1e-4 * v:
            return OFF
        return int(round(v))


def ticks(zs, tick):
    out = []
    for z in zs:
        for v in np.atleast_1d(z):
            q = v / tick
            out.append(int(round(q)) if abs(q - round(q)) < 1e-6 else OFF)
    return out


def bunch(rng, el, n, pz, xi):
    q, m = SPECIES[el.sp]
    b = ParticleBunch(np.full(n, 1.), np.array([(-1)**i * 1e-9 for i in range(n)]),
                      np.zeros(n), np.array(xi, dtype=float) * el.tick, np.zeros(n),
                      np.zeros(n), np.full(n, pz), q_species=q, m_species=m, name='b')
    b.prop_distance = rng.choice([0., 0., 2.5 * el.tick, .3])
    return b


def events(rng, i, e, u, ev):
    """Creates the element and records one to three uses of it."""
    el = Element(rng, e, u['n0'], u['tick'])
    el.dz, el.external = 1, False
    el.sp = u['sp']
    el.weak_laser = False
    L = e['len']
    obj, err = guarded(el.make)
    ev.append({'a': 'make', 'e': i, 'ok': err is None})
    if err:
        return None
    for _ in range(rng.randint(1, 3)):
        what = rng.choice(['density', 'track', 'track', 'auto'])
        el.external = False
        if what == 'density':
            zs = [rng.randint(0, L) for _ in range(rng.randint(1, 5))]
            if rng.random() < .4:
                obj, err = guarded(el.make)
            if rng.random() < .5:
                ns, err = guarded(lambda: list(np.atleast_1d(
                    obj.density(np.array(zs) * el.tick))))
            else:
                ns, err = guarded(lambda: [obj.density(z * el.tick) for z in zs])
            if err:
                return err
            ev.append({'a': 'density', 'e': i, 'z': zs, 'v': [el.code(v) for v in ns]})
            if e['prof'] == 'custom':
                g = el.given
                ref = (g['decay_length'], g['plasma_dens_top'], g['plasma_dens_down'],
                       g.get('position_down', L * el.tick))
                ev.append({'a': 'args', 'e': i, 'same': all(a == ref for a in el.args)})
        elif what == 'auto':
            if e['model'] not in ('none', 'field', 'focusing_blowout', 'quasistatic_2d'):
                continue
            q, m = SPECIES[el.sp]
            # time step of about a third of a tick
            n = el.top if e['prof'] in NAMES else \
                el.n0 * (max(e['tab']) if e['tab'] else e['v'])
            wp2 = n * ct.e**2 / (ct.m_e * ct.epsilon_0)
            g = max((.3 * el.tick / ct.c / .1)**2 * abs(q) / m * ct.m_e / ct.e / 2 * wp2, 1.2)
            el.external = True
            el.rec.t = []
            el.dz = L
            obj, err = guarded(el.make)
            if not err:
                pzs = np.sqrt(g**2 - 1) * np.array([3., 1., 1.7])
                b = bunch(rng, el, 3, 1., [0, 0, 0])
                b.pz = pzs
                _, err = guarded(obj.track, b, show_progress_bar=False)
            if err:
                return err
            dt = 2 * el.rec.t[0]
            if .1 * np.sqrt(2 * g * m * ct.e / (abs(q) * ct.m_e * wp2)) > .5 * L * el.tick / ct.c:
                continue
            wp2 = (.1 / dt)**2 * g * 2 * m / abs(q) * ct.e / ct.m_e
            ev.append({'a': 'auto', 'e': i, 'v': el.code(
                wp2 * ct.m_e * ct.epsilon_0 / ct.e**2)})
        elif e['model'] in ('focusing_blowout', 'simple_blowout', 'custom_blowout'):
            q, m = SPECIES[el.sp]
            xi = [rng.choice([-1, 0, 0, 1]) for _ in range(rng.randint(1, 3))]
            dt = 2 * el.tick / ct.c
            obj, err = guarded(el.make, n_out=L // 2, dt=dt)
            if not err:
                b = bunch(rng, el, len(xi), 1e7 if e['model'] == 'custom_blowout' else 1e9,
                          xi)
                out, err = guarded(obj.track, b, show_progress_bar=False)
            if err:
                return err
            for k in range(1, L // 2 + 1):
                c = 2 * k - 1
                if e['model'] == 'custom_blowout':
                    d = (out[k].pz - out[k - 1].pz) * m * ct.c / (q * dt)
                    s = d / el.slope - np.array(xi) * el.tick      # (1 - b_w) c t
                    bw = 1 - s / (c * el.tick)
                    n = (1 / bw**2 - 1) * (2 * np.pi * ct.c / LASER.l_0)**2 \
                        * ct.m_e * ct.epsilon_0 / ct.e**2
                else:
                    d = (out[k].px - out[k - 1].px) * m * ct.c / (q * dt)
                    n = d * 2 * ct.epsilon_0 / (ct.e * out[0].x)
                ev.append({'a': 'kick', 'e': i, 'c': c, 'xi': xi, 'v': [el.code(v) for v in n]})
        elif e['model'] == 'cold_fluid_1d':
            el.dz = rng.choice([1, 2])
            el.weak_laser = False
            d = os.path.join(SCRATCH, f'dens_{rng.randrange(10**9)}')
            obj, err = guarded(el.make, n_out=L // el.dz, dt=el.tick / ct.c)
            if not err:
                b = bunch(rng, el, 1, 1e7, [0])
                b.x[:] = 1.       # outside the plasma
                _, err = guarded(obj.track, b, opmd_diag=OpenPMDDiagnostics(write_dir=d),
                                 show_progress_bar=False)
            if not err:
                fs = sorted(os.listdir(os.path.join(d, 'hdf5')))
                for k, f in enumerate(fs):
                    with h5py.File(os.path.join(d, 'hdf5', f)) as h:
                        it = list(h['data'])[0]
                        rho = h[f'data/{it}/fields/rho'][...]
                    v = el.code(np.mean(rho) / -ct.e) if np.ptp(rho) <= 1e-9 * abs(
                        rho.flat[0]) else OFF
                    ev.append({'a': 'grid', 'e': i, 'z': k * el.dz, 'v': v})
            shutil.rmtree(d, ignore_errors=True)
            if err:
                return err
        elif e['model'] == 'quasistatic_2d' and (e['type'] == 'callable'
                                                 or e['prof'] == 'custom'):
            el.dz = rng.choice([1, 2, 3])
            el.weak_laser = rng.random() < .5
            obj, err = guarded(el.make, n_out=rng.choice([0, 1]),
                               dt=rng.choice([.7, 1., 5.]) * el.tick / ct.c)
            if not err:
                el.dens, el.chan = [], []
                _, err = guarded(obj.track, bunch(rng, el, 1, 1e7, [0]),
                                 show_progress_bar=False)
            if err:
                return err
            z = ticks(el.dens, el.tick)
            if e['k'] == 'up':
                z = [L - v if v != OFF else OFF for v in z]
            ev.append({'a': 'calls', 'e': i, 'dz': el.dz, 'dens': z,
                       'chan': ticks(el.chan, el.tick)})
    return None


def trace(rng, name):
    els = [random_element(rng) for _ in range(rng.randint(1, 5))]
    u = {'n0': 1e26, 'tick': rng.choice([1e-6, 2.5e-6]),
         'sp': rng.choice(['electron', 'electron', 'positron', 'proton'])}
    ev, err = [], None
    for i, e in enumerate(els):
        err = events(rng, i + 1, e, u, ev)
        if err:
            ev.append({'a': 'fail'})
            break
    return {'id': name, 'cfg': {'els': els}, 'ev': ev, 'error': err}


def run(chk, pid):
    chk.model('MCDensity', 'MCDensityBig.cfg' if THOROUGH else None, workers=2)
    rng = random.Random(SEED * 67867967 + 27)
    n = 1500 if THOROUGH else 150
    chk.validate('TraceDensity', [trace(rng, f'dens_{SEED}_{i}') for i in range(n)])
