"""Deposition, gathering and resampling on r-z grids (Grid.tla)."""
import math
import random

import numpy as np

from vlib import OFF, SEED, THOROUGH, collect, guarded, internal
from phys import code
from wake_t.fields.rz_wakefield import RZWakefield

deposit_3d_distribution = internal('wake_t.particles.deposition:deposit_3d_distribution')
gather_field_cyl_linear = internal('wake_t.particles.interpolation:gather_field_cyl_linear')
gather_main_fields_cyl_linear = internal(
    'wake_t.particles.interpolation:gather_main_fields_cyl_linear')
gather_sources_qs_baxevanis = internal(
    'wake_t.particles.interpolation:gather_sources_qs_baxevanis')
interpolate_rz_field = internal('wake_t.fields.interpolation:interpolate_rz_field')
deposit_plasma_particles = internal(
    'wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.deposition:deposit_plasma_particles')

AZ = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-4, 3), (-3, -4), (4, -3)]


def azimuth(rng, exact):
    return rng.choice(AZ[:4] if exact else AZ)


class Geometry:
    def __init__(self, rng):
        self.nz = rng.randint(4, 6)
        self.nr = rng.randint(4, 6)
        self.dz = 2. ** rng.randint(-3, 2)
        self.dr = 2. ** rng.randint(-3, 2)
        self.zmin = rng.choice([0., -3.5, 2.25])
        self.rmin = self.dr / 2

    def z(self, zc):
        return self.zmin + zc / 8 * self.dz

    def r(self, rc):
        return self.rmin + rc / 8 * self.dr

    def xy(self, p):
        r = self.r(p['rc'])
        return r * p['ax'] / 5, r * p['ay'] / 5


def position(rng, g, even, top):
    """Somewhere in and around the grid; top is the last radius on it."""
    u = rng.random()
    zc = rng.choice([0, 8 * (g.nz - 1), rng.randint(0, 8 * (g.nz - 1)),
                     rng.randint(0, 8 * (g.nz - 1)),
                     8 * rng.randint(0, g.nz - 1)])
    rc = rng.choice([-4, rng.randint(-4, 0), rng.randint(-4, top), top,
                     rng.randint(0, top), top - rng.randint(0, 12),
                     8 * rng.randint(0, g.nr - 1)])
    if u < .06:
        zc = rng.choice([-2, -20, 8 * (g.nz - 1) + 2, 8 * g.nz + 10])
    elif u < .12:
        rc = top + rng.choice([2, 4, 30])
    if even:
        zc, rc = zc // 2 * 2, rc // 2 * 2
    exact = rc == top or rc == top + 1
    ax, ay = azimuth(rng, exact)
    return {'zc': zc, 'rc': rc, 'ax': ax, 'ay': ay}


def deposit_trace(rng, name, n_ev):
    g = Geometry(rng)
    shape = rng.choice(['linear', 'cubic'])
    plasma = rng.random() < .3
    ruyten = not plasma and rng.random() < .7
    unit = 15360 * (8 if shape == 'linear' else 384)
    dirty = rng.random() < .5
    start = [[rng.randint(0, 5) * 1000 if dirty else 0 for _ in range(g.nr + 4)]
             for _ in range(g.nz + 4)]
    arr = np.array(start, dtype=float) / unit
    ev, err = [], None
    for _ in range(n_ev):
        ps = []
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            p = position(rng, g, shape == 'cubic', 8 * g.nr - 4)
            p['w'] = rng.choice([1, 2, 3, 9, -4])
            ps.append(p)
        if plasma:
            zi = rng.randrange(g.nz)
            for p in ps:
                p['zc'] = 8 * zi
            r = np.array([g.r(p['rc']) for p in ps])
            w = np.array([float(p['w']) for p in ps])
            _, err = guarded(deposit_plasma_particles, zi, r, w, g.zmin, g.rmin,
                             g.nz, g.nr, g.dz, g.dr, arr, p_shape=shape)
        else:
            xy = np.array([g.xy(p) for p in ps]).reshape(-1, 2)
            z = np.array([g.z(p['zc']) for p in ps])
            w = np.array([float(p['w']) for p in ps])
            _, err = guarded(
                deposit_3d_distribution, z, xy[:, 0].copy(), xy[:, 1].copy(), w,
                g.zmin, g.rmin, g.nz, g.nr, g.dz, g.dr, arr, p_shape=shape,
                use_ruyten=ruyten)
        if err:
            ev.append({'a': 'fail'})
            break
        obs = [[code(v * unit, .01) for v in row] for row in arr]
        ev.append({'a': 'deposit', 'ps': ps, 'arr': obs})
    cfg = {'nz': g.nz, 'nr': g.nr, 'shape': shape, 'ruyten': ruyten,
           'start': start}
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err,
            'scenario': {'plasma': plasma, **vars(g)}}


def field(rng, g):
    return [[rng.randint(-9, 9) for _ in range(g.nr)] for _ in range(g.nz)]


def guarded_array(rng, g, f, dtype=float):
    a = np.full((g.nz + 4, g.nr + 4), 77., dtype=dtype)
    a[2:-2, 2:-2] = f
    return a


class GridWake(RZWakefield):
    """A plasma wakefield with given values."""

    def __init__(self, values, *args):
        super().__init__(*args)
        self.values = values

    def _calculate_wakefield(self, bunches):
        self.e_r[:], self.e_z[:], self.b_t[:] = self.values


def gather_trace(rng, name, n_ev):
    g = Geometry(rng)
    ev, err = [], None
    zmax, rmax = g.z(8 * (g.nz - 1)), g.r(8 * (g.nr - 1))
    for _ in range(n_ev):
        kind = rng.choice(['gather', 'gather', 'scalar', 'source', 'resample'])
        n = rng.choice([1, 2, 5, 9])
        ps = [position(rng, g, False, 8 * (g.nr - 1)) for _ in range(n)]
        if kind == 'gather':
            fs = [field(rng, g) for _ in range(3)]
            pre = [[rng.randint(-5, 5) for _ in range(6)] for _ in ps]
            out = np.array(pre, dtype=float).T.copy()
            xy = np.array([g.xy(p) for p in ps])
            z = np.array([g.z(p['zc']) for p in ps])
            a = [guarded_array(rng, g, f) for f in fs]
            if rng.random() < .5:
                # as the particles of a bunch do
                wf = GridWake(a, lambda z: 1., g.dr * g.nr, g.zmin, zmax, g.nr, g.nz)
                _, err = guarded(wf.update, [])
                if err is None:
                    _, err = guarded(wf.gather, xy[:, 0].copy(), xy[:, 1].copy(), z,
                                     rng.choice([0., 1e-12]), *out)
            else:
                _, err = guarded(
                    gather_main_fields_cyl_linear, a[0], a[1], a[2], g.zmin, zmax,
                    g.rmin, rmax, g.dz, g.dr, xy[:, 0].copy(), xy[:, 1].copy(), z,
                    *out)
            e = {'a': 'gather', 'er': fs[0], 'ez': fs[1], 'bt': fs[2], 'ps': ps,
                 'pre': [[v * 320 for v in q] for q in pre],
                 'out': [[code(v * 320, .01) for v in q] for q in out.T]}
        elif kind == 'scalar':
            f = field(rng, g)
            xy = np.array([g.xy(p) for p in ps])
            z = np.array([g.z(p['zc']) for p in ps])
            out, err = guarded(
                gather_field_cyl_linear, guarded_array(rng, g, f), g.zmin, zmax,
                g.rmin, rmax, g.dz, g.dr, xy[:, 0].copy(), xy[:, 1].copy(), z)
            e = {'a': 'scalar', 'f': f, 'odd': False, 'ps': ps,
                 'out': [] if err else [code(v * 64, .01) for v in out]}
        elif kind == 'source':
            fs = [field(rng, g) for _ in range(3)]
            zc = rng.randint(0, 8 * (g.nz - 1))
            for p in ps:
                p['zc'] = zc
                p['rc'] = min(p['rc'], 8 * (g.nr - 1))
            r = np.array([g.r(p['rc']) for p in ps])
            out = np.full((3, n), 5.)
            _, err = guarded(
                gather_sources_qs_baxevanis,
                *[guarded_array(rng, g, f) for f in fs], g.zmin, zmax, g.rmin,
                rmax, g.dz, g.dr, r, g.z(zc), *out)
            for k in range(3):
                ev.append({'a': 'scalar', 'f': fs[k], 'odd': k > 0, 'ps': ps,
                           'out': [code(v * 64, .01) for v in out[k]]})
            e = None
        else:
            f, h = field(rng, g), field(rng, g)
            cplx = rng.random() < .6
            if not cplx:
                h = [[0] * g.nr for _ in range(g.nz)]
            zs = sorted(rng.sample(range(0, 8 * (g.nz - 1) + 1), rng.randint(2, 6)))
            if rng.random() < .6:
                zs = [0] + [z for z in zs if z] + [8 * (g.nz - 1)]
            rs = sorted(rng.sample(range(-4, 8 * g.nr - 4), rng.randint(2, 6)))
            a = np.array(f, dtype=float) + (1j * np.array(h) if cplx else 0)
            out = np.zeros((len(zs), len(rs)), dtype=a.dtype)
            _, err = guarded(
                interpolate_rz_field, a, g.zmin, g.rmin, g.dz, g.dr,
                np.array([g.z(z) for z in zs]), np.array([g.r(r) for r in rs]),
                out)
            e = {'a': 'resample', 'f': f, 'h': h, 'zs': zs, 'rs': rs,
                 're': [[code(v.real * 64, .01) for v in row] for row in out],
                 'im': [[code(v.imag * 64, .01) for v in row] for row in out]}
        if err:
            ev.append({'a': 'fail'})
            break
        if e is not None:
            ev.append(e)
    return {'id': name, 'cfg': {'nz': g.nz, 'nr': g.nr, 'start': []}, 'ev': ev,
            'error': err, 'scenario': vars(g)}


def mil(v):
    v = float(v) * 1e6
    return int(round(v)) if np.isfinite(v) and abs(v) < 2**30 else OFF


def real_trace(rng, name, deposit, n_ev):
    ev, err = [], None
    for _ in range(n_ev):
        nz, nr = rng.randint(4, 30), rng.randint(4, 30)
        zmin = rng.uniform(-50, 50)
        zmax = zmin + rng.uniform(1, 80)
        rmax = rng.uniform(.5, 40)
        dz, dr = (zmax - zmin) / (nz - 1), rmax / nr
        rfld = np.linspace(dr / 2, rmax - dr / 2, nr)
        zfld = np.linspace(zmin, zmax, nz)
        n = rng.choice([1, 3, 20])
        if deposit and rng.random() < .1:
            n = 40000       # shared among threads, where it is
        g = np.random.default_rng(rng.randrange(2**31))
        top = rmax if deposit else rfld[-1]
        r = g.uniform(0, 1, n)**rng.choice([.5, 1, 4]) * top * (1 - 1e-9)
        z = g.uniform(zmin, zmax, n)
        ph = g.uniform(0, 2 * np.pi, n)
        x, y = r * np.cos(ph), r * np.sin(ph)
        if deposit:
            w = g.uniform(.5, 2, n)
            shape = rng.choice(['linear', 'cubic'])
            arr = np.zeros((nz + 4, nr + 4))
            _, err = guarded(deposit_3d_distribution, z, x, y, w, zfld[0],
                             rfld[0], nz, nr, dz, dr, arr, p_shape=shape,
                             use_ruyten=rng.random() < .6)
            if err:
                break
            phys = arr[2:-2, 2:-2].copy()
            full = arr.copy()
            full[2:-2, 2:-2] = 0
            cz = 0. if shape == 'cubic' else \
                ((phys.sum(axis=1) * zfld).sum() - (w * z).sum()) / w.sum() / dz
            far = 0
            if n == 1:
                reach = 1 if shape == 'linear' else 2
                ii, jj = np.nonzero(np.abs(phys) > 1e-12)
                far = int(np.any(np.abs(zfld[ii] - z[0]) > reach * dz * 1.0001)
                          or np.any(np.abs(rfld[jj] - r[0]) > reach * dr * 1.0001))
            ev.append({'a': 'real', 'sum': mil(phys.sum() / w.sum()),
                       'w': 1000000, 'guard': int(np.any(full != 0)),
                       'cz': mil(cz), 'far': far})
        else:
            c = g.uniform(-1, 1, 5)
            zz = (zfld - zmin) / (zmax - zmin)
            ez = c[0] + c[1] * zz[:, None] + c[2] * rfld[None, :] / rmax
            er = (c[3] + zz[:, None]) * rfld[None, :] / rmax
            bt = (c[4] - zz[:, None]) * rfld[None, :] / rmax
            pad = [np.pad(a, 2, constant_values=33.) for a in (er, ez, bt)]
            out = np.zeros((6, n))
            if rng.random() < .5:
                wf = GridWake(pad, lambda z: 1., rmax, zmin, zmax, nr, nz)
                _, err = guarded(wf.update, [])
                if err is None:
                    _, err = guarded(wf.gather, x, y, z, 0., *out)
            else:
                _, err = guarded(
                    gather_main_fields_cyl_linear, *pad, zfld[0], zfld[-1], rfld[0],
                    rfld[-1], zfld[1] - zfld[0], rfld[1] - rfld[0], x, y, z, *out)
            if err:
                break
            zr = (z - zmin) / (zmax - zmin)
            rr = np.maximum(r, dr / 2)
            want = np.array([
                (c[3] + zr) * x / rmax, (c[3] + zr) * y / rmax,
                c[0] + c[1] * zr + c[2] * rr / rmax,
                -(c[4] - zr) * y / rmax, (c[4] - zr) * x / rmax, 0 * x])
            ev.append({'a': 'realgather',
                       'got': [[mil(v) for v in q] for q in out.T],
                       'want': [[mil(v) for v in q] for q in want.T]})
    if err:
        ev.append({'a': 'fail'})
    return {'id': name, 'cfg': {'nz': 4, 'nr': 4, 'start': []}, 'ev': ev,
            'error': err}


def run(chk, pid):
    chk.model('MCGrid', workers=2)
    rng = random.Random(SEED * 15485863 + 3)
    n = 240 if THOROUGH else 40
    if pid == 'P16':
        makers = [lambda i=i: deposit_trace(rng, f'deposit_{SEED}_{i}', 10)
                  for i in range(n)]
    else:
        makers = [lambda i=i: gather_trace(rng, f'gather_{SEED}_{i}', 12)
                  for i in range(n)]
    makers += [lambda i=i: real_trace(rng, f'real_{SEED}_{i}', pid == 'P16', 20)
               for i in range(n // 4)]
    traces = collect(chk, makers)
    chk.validate('TraceGrid', traces)
