"""Superposition of fields (Fields.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, guarded
from phys import momentum, den, code
from wake_t import (GaussianPulse, PlasmaStage, ActivePlasmaLens)
from wake_t.beamline_elements import FieldElement, FieldQuadrupole
from wake_t.fields.analytical_field import AnalyticalField
from wake_t.particles.particle_bunch import ParticleBunch
from wake_t.physics_models.em_fields.linear_b_theta import LinearBThetaField
from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
from wake_t.physics_models.plasma_wakefields import (
    SimpleBlowoutWakefield, CustomBlowoutWakefield, FocusingBlowoutField,
    NonLinearColdFluidWakefield)

DT = 1e-18
L0 = 1e-2
W0 = 1e11
E0 = 1e-10 * ct.m_e * ct.c / (ct.e * DT)
B0 = E0 / ct.c


def lin_function(c):
    c0, cx, cy, cz = [v * (E0 if i == 0 else E0 / L0) for i, v in enumerate(c)]

    def f(x, y, z, t, fld, k):
        for i in range(x.shape[0]):
            fld[i] += k[0] * (c0 + cx * x[i] + cy * y[i] + cz * z[i])
    return f


def lin_function_b(c):
    g = lin_function(c)

    def f(x, y, z, t, fld, k):
        tmp = np.zeros_like(x)
        g(x, y, z, t, tmp, k)
        fld += tmp / ct.c
    return f


def density_of(g):
    """Density for which the blowout gradient is g*E0/L0."""
    return g * E0 / L0 * 2 * ct.epsilon_0 / ct.e


class Dens:
    def __init__(self, n):
        self.n = n

    def __call__(self, z):
        return np.ones_like(z) * self.n


LASER = GaussianPulse(xi_c=0.3 * L0, a_0=1., w_0=1e-3, tau=1e-13)


def simple_args(f):
    n = density_of(f['g'])
    w_p = np.sqrt(n * ct.e**2 / (ct.m_e * ct.epsilon_0))
    l_p = 2 * np.pi * ct.c / w_p
    return n, l_p / 2 - LASER.xi_c + f['xi0'] * L0


def make_field(f):
    k = f['k']
    if k == 'lin':
        fs = [None if c == [] else
              (lin_function(c) if i < 3 else lin_function_b(c))
              for i, c in enumerate(f['comps'])]
        return AnalyticalField(*fs, constants=[1.])
    if k == 'quad':
        return QuadrupoleField(f['g'] * B0 / L0)
    if k == 'lens':
        return LinearBThetaField(-f['g'] * B0 / L0)
    if k == 'custom':
        return CustomBlowoutWakefield(
            Dens(1e15), LASER, lon_field=f['e0'] * E0,
            lon_field_slope=f['e1'] * E0 / L0, foc_strength=f['g'] * B0 / L0,
            xi_fields=f['xi0'] * L0)
    if k == 'simple':
        n, off = simple_args(f)
        return SimpleBlowoutWakefield(Dens(n), LASER, field_offset=off)
    if k == 'focus':
        return FocusingBlowoutField(Dens(density_of(f['g'])))
    if k == 'wake':
        return NonLinearColdFluidWakefield(Dens(2e13), **wake_args(f))


def wake_args(f):
    return dict(r_max=12 * L0, xi_min=-12 * L0, xi_max=12 * L0, n_r=10,
                n_xi=24, beam_wakefields=True, p_shape=f['shape'])


def stage_for(rng, f, ext, kw):
    """A plasma stage whose own wakefield is f, by model name."""
    kw = dict(kw)
    if ext or rng.random() < .5:
        kw['external_fields'] = ext
    if f['k'] == 'custom':
        return PlasmaStage(wakefield_model='custom_blowout', density=Dens(1e15),
                           laser=LASER, lon_field=f['e0'] * E0,
                           lon_field_slope=f['e1'] * E0 / L0,
                           foc_strength=f['g'] * B0 / L0,
                           xi_fields=f['xi0'] * L0, **kw)
    if f['k'] == 'simple':
        n, off = simple_args(f)
        return PlasmaStage(wakefield_model='simple_blowout', density=float(n),
                           laser=LASER, field_offset=off, **kw)
    if f['k'] == 'focus':
        return PlasmaStage(wakefield_model='focusing_blowout',
                           density=float(density_of(f['g'])), **kw)
    if f['k'] == 'wake':
        return PlasmaStage(wakefield_model='cold_fluid_1d', density=Dens(2e13),
                           **wake_args(f), **kw)


def lens_for(rng, g, f, kw):
    kw = dict(kw)
    if f is None:
        return ActivePlasmaLens(foc_strength=g * B0 / L0, **kw)
    kw['wakefields'] = True
    if f['k'] == 'custom':
        return ActivePlasmaLens(
            foc_strength=g * B0 / L0, wakefield_model='custom_blowout',
            density=Dens(1e15), laser=LASER, lon_field=f['e0'] * E0,
            lon_field_slope=f['e1'] * E0 / L0, xi_fields=f['xi0'] * L0,
            **kw)
    if f['k'] == 'simple':
        n, off = simple_args(f)
        return ActivePlasmaLens(
            foc_strength=g * B0 / L0, wakefield_model='simple_blowout',
            density=float(n), laser=LASER, field_offset=off, **kw)
    if f['k'] == 'focus':
        return ActivePlasmaLens(
            foc_strength=g * B0 / L0, wakefield_model='focusing_blowout',
            density=float(density_of(f['g'])), **kw)
    if f['k'] == 'wake':
        return ActivePlasmaLens(
            foc_strength=g * B0 / L0, wakefield_model='cold_fluid_1d',
            density=Dens(2e13), **wake_args(f), **kw)


def random_field(rng, kind):
    nz = [i for i in range(-9, 10) if i]
    f = {'k': kind, 'g': rng.choice(nz)}
    if kind == 'lin':
        f['comps'] = [[] if rng.random() < .4 else
                      [rng.randint(-9, 9) for _ in range(4)] for _ in range(6)]
    if kind in ('simple', 'focus'):
        f['g'] = rng.randint(1, 9)
    f['xi0'] = rng.randint(-5, 5)
    f['e0'], f['e1'] = rng.choice(nz), rng.choice(nz)
    if kind == 'wake':
        f['shape'] = rng.choice(['linear', 'cubic'])
    return f


def field_trace(rng, name, n_ev):
    kinds = ['lin', 'lin', 'quad', 'lens', 'custom', 'simple', 'focus', 'wake',
             'lin']
    cat = [random_field(rng, k) for k in kinds]
    objs = [make_field(f) for f in cat]
    zq = rng.choice([-1, 1, -2])
    mm = rng.choice([1, 1, 3])
    bunches = [[dict(x=rng.randint(-9, 9), y=rng.randint(-9, 9),
                     xi=rng.randint(-9, 9), d=rng.randint(1, 8),
                     e=rng.randint(1, 5))
                for _ in range(rng.choice([1, 2, 5]))] for _ in range(3)]

    def arrays(ps):
        mom = np.array([momentum(p) for p in ps])
        return ([np.array([p[k] * L0 for p in ps]) for k in ('x', 'y', 'xi')]
                + [mom[:, k].copy() for k in range(3)])

    real = [ParticleBunch(np.full(len(ps), W0), *arrays(ps), name=f'b{i}',
                          q_species=zq * ct.e, m_species=mm * ct.m_e)
            for i, ps in enumerate(bunches)]
    ev = []
    err = None
    script = []
    for n in range(n_ev):
        ws = [f for f in range(len(cat)) if cat[f]['k'] == 'wake']
        if n < len(ws) * len(bunches):
            fs = [ws[n % len(ws)]]
            bs = [n // len(ws)]
        else:
            fs = rng.sample(range(len(cat)), rng.choice([0, 1, 2, 3, 4, 6]))
            bs = rng.sample(range(len(bunches)), rng.choice([1, 1, 2, 3]))
            if any(f in ws for f in fs):
                bs = bs[:1]
        kw = dict(length=DT * ct.c, dt_bunch=DT, n_out=rng.choice([0, 1]),
                  bunch_pusher=rng.choice(['boris', 'rk4']))
        et = 'fe'
        own = [f for f in fs if cat[f]['k'] in
               ('custom', 'simple', 'focus', 'wake')]
        lens = [f for f in fs if cat[f]['k'] == 'lens']
        u = rng.random()
        twice = [f for f in fs if f not in ws]
        if twice and rng.random() < .15:
            # one field object several times in the list
            fs = fs + [rng.choice(twice) for _ in range(rng.choice([1, 2]))]
            rng.shuffle(fs)
            u = 1.
            own = fs
        if fs and len(fs) == 1 and cat[fs[0]]['k'] == 'quad' and u < .6:
            et = 'fq'
            el = FieldQuadrupole(foc_strength=cat[fs[0]]['g'] * B0 / L0, **kw)
        elif lens and u < .5 and (len(fs) == 1 or (len(fs) == 2 and
                                                   len(own) == 1 and cat[own[0]]['k'] != 'custom')):
            et = 'apl'
            el = lens_for(rng, cat[lens[0]]['g'],
                          cat[own[0]] if own else None, kw)
        elif own and u < .8 and n >= len(ws) * len(bunches):
            et = 'ps'
            o = own[0]
            rest = [f for f in fs if f != o]
            rng.shuffle(rest)
            if rng.random() < .5:
                el = stage_for(rng, cat[o], [objs[f] for f in rest], kw)
            else:
                el = PlasmaStage(wakefield_model=objs[o], density=1e15,
                                 external_fields=[objs[f] for f in rest], **kw)
        elif u < .9 or own:
            el = FieldElement(fields=[objs[f] for f in fs], **kw)
        else:
            et = 'ps0'
            el = PlasmaStage(wakefield_model=None, density=1e15,
                             external_fields=[objs[f] for f in fs], **kw)
        script.append([et, fs, bs, kw['bunch_pusher']])
        start = []
        for b in bs:
            a = arrays(bunches[b])
            r = real[b]
            r.x[:], r.y[:], r.xi[:], r.px[:], r.py[:], r.pz[:] = a
            start.append(a)
        _, err = guarded(el.track, [real[b] for b in bs] if len(bs) > 1 or
                         rng.random() < .3 else real[bs[0]],
                         show_progress_bar=False)
        if err:
            ev.append({'a': 'fail'})
            break
        F = []
        for b, a in zip(bs, start):
            r = real[b]
            scale = mm * ct.m_e * ct.c / (zq * ct.e * DT * E0)
            fb = []
            for i, p in enumerate(bunches[b]):
                d = [(m[i] - a[3 + k][i]) * scale * den(p)
                     for k, m in enumerate((r.px, r.py, r.pz))]
                if any(cat[f]['k'] == 'wake' for f in fs):
                    fb.append([int(round(v)) if np.isfinite(v) and
                               abs(v) < 2**28 else OFF for v in d])
                else:
                    fb.append([code(v) for v in d])
            F.append(fb)
        ev.append({'a': 'act', 'et': et, 'fs': [f + 1 for f in fs],
                   'bs': [b + 1 for b in bs], 'F': F})
    return {'id': name, 'cfg': {'fields': cat, 'bunches': bunches}, 'ev': ev,
            'error': err, 'scenario': script}


def user_function(c):
    c1, cx, cy, cz, c5, c2 = [float(v) for v in c]

    def f(x, y, z, t, fld, k):
        for i in range(x.shape[0]):
            fld[i] += c1 * k[0] + cx * x[i] + cy * y[i] + cz * z[i] + c5 * t + c2 * k[1]
    return f


def user_trace(rng, name):
    """User-defined fields, gathered at several places and times."""
    cat, objs = [], []
    for _ in range(3):
        u = {'c': [[] if rng.random() < .3 else [rng.randint(-3, 3) for _ in range(6)]
                   for _ in range(6)],
             'k': [rng.randint(2**24, 2**25) * 2 + 1, rng.randint(-99, 99)]}
        fs = dict(zip(('e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z'),
                      [user_function(c) if c else None for c in u['c']]))
        if rng.random() < .5:
            fs = {k: v for k, v in fs.items() if v is not None}
        cat.append(u)
        objs.append(AnalyticalField(constants=[float(k) for k in u['k']], **fs))
    ev, err = [], None
    for _ in range(6):
        n, t = rng.choice([1, 2, 5]), rng.randint(-9, 9)
        pts = [{k: rng.randint(-99, 99) for k in ('x', 'y', 'xi')} for _ in range(n)]
        x = [np.array([float(p[k]) for p in pts]) for k in ('x', 'y', 'xi')]
        fld = [np.zeros(n) for _ in range(6)]
        use = [rng.randrange(3) for _ in range(rng.choice([1, 1, 2]))]
        for f in use:
            _, err = guarded(objs[f].gather, *x, float(t), *fld)
            if err:
                return {'id': name, 'cfg': {'fields': [], 'bunches': []},
                        'ev': ev + [{'a': 'fail'}], 'error': err}
        ev.append({'a': 'gather', 'user': [cat[f] for f in use], 'pts': pts, 't': t,
                   'v': [[int(v) if abs(v) < 2**31 and v == int(v) else OFF for v in a]
                         for a in fld]})
    return {'id': name, 'cfg': {'fields': [], 'bunches': []}, 'ev': ev, 'error': err}


def run(chk, pid):
    chk.model('MCFields', None if not THOROUGH else 'MCFieldsBig.cfg')
    rng = random.Random(SEED * 7919 + 13)
    n = 60 if THOROUGH else 12
    traces = [field_trace(rng, f'fields_{SEED}_{i}', 40) for i in range(n)]
    traces += [user_trace(rng, f'user_{SEED}_{i}') for i in range(2 * n)]
    chk.validate('TraceFields', traces)
