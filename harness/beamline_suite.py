"""Beamlines, nesting, and the openPMD series (spec/Beamline.tla)."""
import glob
import os
import random

import h5py
import numpy as np
import scipy.constants as ct

from vlib import OFF, SCRATCH, SEED, THOROUGH, guarded, tick
from wake_t import Beamline
from wake_t.beamline_elements import (
    FieldElement, PlasmaStage, PlasmaRamp, ActivePlasmaLens, FieldQuadrupole,
    Drift, Quadrupole, Dipole, Sextupole)
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.fields.base import Field
from wake_t.fields.rz_wakefield import RZWakefield
from wake_t.particles.particle_bunch import ParticleBunch
from wake_t.physics_models.laser.laser_pulse import GaussianPulse
from wake_t.utilities.bunch_generation import get_from_file

UNIT = 1e-3
M_P = 1836.15267343 * ct.m_e


class Kick(Field):
    """A field linear in x, y and constant in z."""

    def __init__(self, a):
        super().__init__()
        self.a = a

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        ex += self.a * 1e13 * x
        ey -= self.a * 0.7e13 * y
        ez += self.a * 1e8


def build(e):
    """A new element from its description."""
    L, n = e['L'] * UNIT, e['n']
    k = e['type']
    nt = None if n < 0 else n
    dt = e.get('dt', 1) * UNIT / ct.c * 0.37
    if k == 'drift':
        return Drift(L, n_out=nt)
    if k == 'quad':
        return Quadrupole(L, k1=300. * e['s'], n_out=nt, order=1 + e['L'] % 2)
    if k == 'dipole':
        return Dipole(L, theta=0.03 * e['s'], n_out=nt)
    if k == 'sext':
        return Sextupole(L, k2=1e4 * e['s'], n_out=nt)
    if k == 'field':
        return FieldElement(L, dt, bunch_pusher=e['p'], n_out=n,
                            fields=[Kick(e['s']), Kick(0.5)])
    if k == 'lens':
        return ActivePlasmaLens(L, 3000. * e['s'], n_out=n, dt_bunch=dt,
                                bunch_pusher=e['p'])
    if k == 'fquad':
        return FieldQuadrupole(L, 500. * e['s'], n_out=n, dt_bunch=dt,
                               bunch_pusher=e['p'])
    if k == 'stage':
        return PlasmaStage(L, 1e22, 'focusing_blowout', n_out=n, dt_bunch=dt,
                           bunch_pusher=e['p'])
    if k == 'blowout':
        return PlasmaStage(L, 1e22, 'simple_blowout', n_out=n, dt_bunch=dt,
                           bunch_pusher=e['p'],
                           laser=GaussianPulse(0., 2., 20e-6, 30e-15))
    if k == 'ramp':
        return PlasmaRamp(L, 'inverse_square', 'upramp', plasma_dens_top=1e22,
                          plasma_dens_down=1e20, n_out=n, dt_bunch=dt,
                          bunch_pusher=e['p'])
    raise KeyError(k)


TM = ('drift', 'quad', 'dipole', 'sext')


def random_elements(rng, n, multi):
    out = []
    for _ in range(n):
        k = rng.choice(['field', 'lens', 'fquad', 'stage', 'ramp', 'blowout'] +
                       ([] if multi else list(TM) * 2))
        L = rng.choice([2, 4, 6, 12])
        divs = [d for d in (1, 2, 3, 4, 6) if L % d == 0]
        nout = rng.choice(divs + ([-1, -1] if k in TM else [0, 0]))
        out.append(dict(type=k, L=L, n=nout, s=rng.choice([1, -1, 2]),
                        p=rng.choice(['boris', 'rk4']),
                        dt=rng.choice([1, 2, 3])))
    # The same element more than once.
    for i in range(1, n):
        if rng.random() < .2:
            out[i] = out[rng.randrange(i)]
    return out


def random_tree(rng, lo, hi, depth):
    """Random grouping of the elements lo..hi-1."""
    if hi - lo == 1 and (depth == 0 or rng.random() < 0.6):
        return {'leaf': True, 'i': lo + 1}
    if depth == 0:
        return {'leaf': False, 'c': [{'leaf': True, 'i': i + 1}
                                     for i in range(lo, hi)]}
    ch, a = [], lo
    while a < hi:
        b = rng.randint(a + 1, hi)
        ch.append(random_tree(rng, a, b, depth - 1))
        a = b
    return {'leaf': False, 'c': ch}


def realise(tree, els):
    if tree['leaf']:
        return els[tree['i'] - 1]
    return Beamline([realise(t, els) for t in tree['c']])


class Tokens:
    def __init__(self):
        self.d = {}

    def full(self, b):
        key = (b.name, b.prop_distance, b.x_ref, b.theta_ref,
               *(np.asarray(getattr(b, k)).tobytes() for k in
                 ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')))
        return self.d.setdefault(key, len(self.d) + 1)


def same_data(b, x, y, z, px, py, pz, w):
    def ap(a, c):
        return a.shape == c.shape and np.allclose(a, c, rtol=1e-13, atol=0)
    return (np.array_equal(b.x, x) and np.array_equal(b.y, y) and
            np.array_equal(b.xi, z) and np.array_equal(b.w, w) and
            ap(b.px, px) and ap(b.py, py) and ap(b.pz, pz))


def record(p, path, n=None):
    """Values (SI) of a record component, constant or not; NaN if missing."""
    o = p.get(path)
    if isinstance(o, h5py.Dataset):
        return o[:] * o.attrs.get('unitSI', 1.)
    v = np.nan
    if o is not None and 'value' in o.attrs:
        v = float(o.attrs['value']) * o.attrs.get('unitSI', 1.)
    return v if n is None else np.full(n, v)


def dimension(p, path):
    o = p.get(path)
    d = o.attrs.get('unitDimension') if o is not None else None
    return [OFF] * 7 if d is None or len(d) != 7 else [code_int(v) for v in d]


def code_int(v):
    return int(round(v)) if np.isfinite(v) and abs(v - round(v)) < 1e-9 else OFF


def read_files(d, after):
    """The files written after number `after`."""
    res = []
    names = sorted(glob.glob(os.path.join(d, 'hdf5', '*.h5')))
    for f in names[after:]:
        with h5py.File(f, 'r') as h:
            its = list(h['data'])
            it = h['data'][its[0]]
            fname = os.path.basename(f)
            idx = int(its[0])
            if len(its) != 1 or fname != f'data{idx:08d}.h5':
                idx = OFF
            tu = it.attrs.get('timeUnitSI', 1.)
            sp = {}
            for n in (it['particles'] if 'particles' in it else []):
                p = it['particles'][n]
                nn = len(record(p, 'position/x', 1))
                sp[n] = dict(
                    x=record(p, 'position/x', nn), y=record(p, 'position/y', nn),
                    z=record(p, 'position/z', nn), px=record(p, 'momentum/x', nn),
                    py=record(p, 'momentum/y', nn), pz=record(p, 'momentum/z', nn),
                    w=record(p, 'weighting', nn),
                    q=np.ravel(record(p, 'charge'))[0],
                    m=np.ravel(record(p, 'mass'))[0],
                    zoff=np.ravel(record(p, 'positionOffset/z'))[0],
                    xoff=np.ravel(record(p, 'positionOffset/x'))[0],
                    yoff=np.ravel(record(p, 'positionOffset/y'))[0],
                    dims={r: dimension(p, r) for r in
                          ('position', 'positionOffset', 'momentum', 'charge',
                           'mass')})
            res.append(dict(idx=idx, t=float(it.attrs['time'] * tu), sp=sp,
                            path=f))
    return res


def line_trace(rng, name, multi, diag_mode, n_el):
    els = random_elements(rng, n_el, multi)
    nb = rng.choice([2, 3]) if multi else 1
    g = np.random.default_rng(rng.randrange(2**31))
    bunches = []
    for i in range(nb):
        n = 4 + i
        pos = i % 2 == 1 or (not multi and rng.random() < .3)
        bunches.append(ParticleBunch(
            g.uniform(1, 3, n), g.normal(0, 1e-6, n), g.normal(0, 1e-6, n),
            g.normal(-30e-6 * i, 1e-6, n), g.normal(0, .1, n),
            g.normal(0, .1, n), g.normal(400, 4, n), name=f'sp{i}',
            prop_distance=rng.choice([0, 0.5]),
            q_species=ct.e if pos else -ct.e,
            m_species=(rng.choice([2 * ct.m_e, M_P]) if pos else ct.m_e)))
    if rng.random() < .3:
        bunches[0].theta_ref = 0.01
        bunches[0].x_ref = 1e-4
    tok = Tokens()
    arg = bunches if multi else bunches[0]
    by_hand = [b.copy() for b in bunches]
    cfg = {'rows': [], 'names': sorted(b.name for b in bunches),
           'period': 1, 'nr': 0, 'nz': 0, 'dr': 0, 'dz': 0}
    known = {}     # content token -> bunch copy

    def tokens(out):
        res = []
        for o in out:
            res.append([tok.full(s) for s in o] if isinstance(o, list)
                       else [tok.full(o)])
        return res
    err = None
    for e in els:
        el = build(e)
        out, err = guarded(el.track, by_hand if multi else by_hand[0],
                           show_progress_bar=False, limit=60)
        if err:
            break
        cont = []
        if e['n'] > 0:
            lists = out if multi else [out]
            for k in range(max((len(x) for x in lists), default=0)):
                cont.append(sorted(tok.full(lst[k]) for lst in lists
                                   if k < len(lst)))
            for lst in lists:
                for s in lst:
                    known[tok.full(s)] = s.copy()
        cfg['rows'].append({
            'L': e['L'], 'kind': 'tm' if e['type'] in TM else 'field',
            'n': e['n'], 'outs': tokens(out), 'cont': cont,
            'fin': [tok.full(b) for b in by_hand]})
    ev = []
    if err:
        return {'id': name, 'cfg': cfg, 'ev': [{'a': 'fail'}], 'error': err,
                'scenario': els}
    start = [b.prop_distance for b in bunches]
    # Repeated descriptions are one element used repeatedly.
    made = {id(e): build(e) for e in els}
    objs = [made[id(e)] for e in els]
    d = os.path.join(SCRATCH, 'bl_' + name.replace('/', '_'))
    diag = OpenPMDDiagnostics(write_dir=d) if diag_mode else False
    n_files = 0
    a = 0
    n_calls = 0
    while a < len(els):
        b = rng.choice([len(els), rng.randint(a + 1, len(els))])
        if diag_mode == 'dup' and rng.random() < .7:
            n_before = len(glob.glob(os.path.join(d, 'hdf5', '*')))
            clash = [ParticleBunch(*(np.ones(2) * 1e-6,) * 6, np.ones(2) * 100,
                                   name='same') for _ in range(2)]
            _, err = guarded(
                FieldElement(UNIT, UNIT / ct.c, fields=[Kick(0.)], n_out=1).track,
                clash, opmd_diag=diag, show_progress_bar=False, limit=60)
            ev.append({'a': 'dup', 'raised': 'none' if err is None else
                       err.strip().splitlines()[-1].split(':')[0],
                       'files': len(glob.glob(os.path.join(d, 'hdf5', '*'))) - n_before})
        if diag_mode in ('one', 'dup') and rng.random() < .2:
            # an element without bunches
            L0, n0 = rng.choice([2, 4]), rng.choice([1, 2])
            _, err = guarded(
                FieldElement(L0 * UNIT, UNIT / ct.c, fields=[Kick(0.)], n_out=n0).track,
                [], opmd_diag=diag, show_progress_bar=False, limit=60)
            if err:
                ev.append({'a': 'fail'})
                break
            fs = read_files(d, n_files)
            n_files += len(fs)
            ev.append({'a': 'nobunch', 'L': L0, 'n': n0, 'files': [
                {'idx': f['idx'], 't': tick(f['t'] * ct.c, UNIT),
                 'names': sorted(f['sp'])} for f in fs]})
        tree = random_tree(rng, a, b, rng.choice([0, 1, 2, 3]))
        obj = realise(tree, objs)
        kw = {'opmd_diag': diag}
        if not diag_mode:
            # nothing is written anywhere
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if rng.random() < .5:
                kw = {}
        if diag_mode == 'new' and (n_calls == 0 or rng.random() < .4):
            d = os.path.join(SCRATCH, f"bl_{name.replace('/', '_')}_{n_calls}")
            n_files = 0
            ev.append({'a': 'newdiag'})
            if rng.random() < .5 and b == len(els):
                kw = {'opmd_diag': True, 'diag_dir': d}
            else:
                diag = OpenPMDDiagnostics(write_dir=d)
                kw = {'opmd_diag': diag}
        n_calls += 1
        out, err = guarded(obj.track, arg, show_progress_bar=False, limit=120,
                           **kw)
        if err:
            ev.append({'a': 'fail'})
            break
        e = {'a': 'track', 'tree': tree, 'outs': tokens(out),
             'fin': [tok.full(x) for x in bunches],
             'prop': tick(bunches[0].prop_distance - start[0], UNIT),
             'written': bool(diag_mode), 'files': [],
             'stray': 0 if diag_mode else
             sum(len(x[2]) for x in os.walk(d))}
        if any(tick(x.prop_distance - s, UNIT) != e['prop']
               for x, s in zip(bunches, start)):
            e['prop'] = OFF
        dims = []
        fs = read_files(d, n_files) if diag_mode else []
        n_files += len(fs)
        for f in fs:
            cont, qm, zoff = [], True, []
            for n, s in f['sp'].items():
                for r, dim in s['dims'].items():
                    dims.append({'a': 'dims', 'rec': r, 'dim': dim})
                ref = [x for x in bunches if x.name == n]
                qm &= bool(ref and ref[0].q_species == s['q'] and
                           ref[0].m_species == s['m'] and s['xoff'] == 0 and
                           s['yoff'] == 0)
                mc = s['m'] * ct.c
                hit = [t for t, k in known.items() if k.name == n and same_data(
                    k, s['x'], s['y'], s['z'], s['px'] / mc, s['py'] / mc,
                    s['pz'] / mc, s['w'])]
                cont.append(hit)
                zoff.append(tick(s['zoff'], UNIT))
            e['files'].append({
                'idx': f['idx'], 't': tick(f['t'] * ct.c, UNIT), 'zoff': zoff,
                'names': sorted(f['sp']), 'qm': bool(qm), 'cont': cont,
                'path': f['path']})
        ev.append(e)
        ev += dims
        a = b
    # A state can occur at several outputs (a drift of nothing): resolve the
    # candidates of each file with the expected ones.
    pos = 0
    for e in ev:
        if e['a'] != 'track':
            continue
        rows = []

        def walk(t):
            if t['leaf']:
                rows.append(t['i'] - 1)
            else:
                for c in t['c']:
                    walk(c)
        walk(e['tree'])
        want = [c for r in rows for c in cfg['rows'][r]['cont']]
        for k, f in enumerate(e['files']):
            exp = want[k] if k < len(want) else []
            f['cont'] = sorted(next((t for t in hit if t in exp),
                                    hit[0] if hit else 0)
                               for hit in f['cont'])
    # Read back some files.
    for e in [x for x in ev if x['a'] == 'track']:
        for f in e['files']:
            path = f.pop('path')
            if rng.random() < .15:
                for i, b in enumerate(bunches):
                    rb, err2 = guarded(get_from_file, path, 'openpmd',
                                       species_name=b.name if multi or
                                       rng.random() < .5 else None)
                    if err2:
                        ev.append({'a': 'fail'})
                        err = err2
                        break
                    ev.append(read_event(rb, b, f, known))
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err, 'scenario': els}


def read_event(rb, b, f, known):
    got = 0
    want = next((t for t in f['cont'] if t in known and
                 known[t].name == b.name), 0)
    for t in [want] + list(known):
        k = known.get(t)
        if k is None or k.name != b.name or len(k.x) != len(rb.x):
            continue
        xi = k.xi - np.average(k.xi, weights=k.w)
        if all(np.allclose(u, v, rtol=1e-12, atol=1e-13 * (abs(v).max() + 1e-3))
               for u, v in ((rb.x, k.x), (rb.y, k.y), (rb.px, k.px),
                            (rb.py, k.py), (rb.pz, k.pz), (rb.w, k.w))) and \
                np.allclose(rb.xi, xi, rtol=0, atol=1e-14):
            got = t
            break
    return {'a': 'read', 'got': got, 'want': want,
            'qm': bool(np.isclose(rb.q_species, b.q_species, rtol=1e-9) and
                       np.isclose(rb.m_species, b.m_species, rtol=1e-9) and
                       rb.name == b.name),
            'centred': bool(abs(np.average(rb.xi, weights=rb.w)) < 1e-12)}


class GridField(RZWakefield):
    """A plasma field whose grid values tell where and when they belong."""
    n_eval = 0
    np_list = ()
    env_list = ()

    def _calculate_wakefield(self, bunches):
        self.n_eval += 1
        z, r = np.meshgrid(np.arange(self.n_xi), np.arange(self.n_r),
                           indexing='ij')
        code = 100000. * self.n_eval + 100 * z + r
        for k, a in enumerate((self.e_r, self.e_t, self.e_z, self.b_r,
                               self.b_t, self.b_z, self.rho)):
            a[:] = -7777.
            a[2:-2, 2:-2] = code + 10000 * k
        self.np_list = self.np_list + (self.n_p,)
        if self.laser is not None:
            self.env_list = self.env_list + (self.laser.get_envelope().copy(),)

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        pass


def laser_match(v, env_list, comp):
    """The (last) evaluation whose envelope is the data v, or 0."""
    for k in reversed(range(len(env_list))):
        a = env_list[k].T
        if v.shape != a.shape:
            continue
        if comp == 'a_phase':
            ok = np.allclose(np.exp(1j * v) * np.abs(a), a, rtol=0,
                             atol=1e-11 * np.abs(a).max()) and \
                np.all(np.abs(v) < np.pi + 1e-9)
        else:
            b = np.abs(a) if comp == 'a_mod' else a
            ok = np.allclose(v, b, rtol=1e-11, atol=1e-12 * np.abs(a).max())
        if ok:
            return k + 1
    return 0


def mesh_traces(rng, n):
    traces = []
    for k in range(n):
        L = 12
        nout = rng.choice([1, 2, 3, 4, 6, 12])
        period = rng.choice([1, 2, 3, 5, 7, 13])
        nr, nz = rng.choice([(3, 4), (5, 3), (2, 6), (4, 4)])
        dr, dz = rng.choice([(2, 3), (1, 1), (3, 1)])
        with_laser = k % 2 == 1
        if with_laser:
            period = rng.choice([1, 2, 3, 4, 6])
            nr, nz = rng.choice([(5, 6), (7, 5)])
        xi_min = -rng.choice([3, 8, 11]) * UNIT
        d = os.path.join(SCRATCH, f'mesh_{k}')
        diag = OpenPMDDiagnostics(write_dir=d)
        b = ParticleBunch(np.ones(2), *(np.zeros(2),) * 3, np.zeros(2),
                          np.zeros(2), np.full(2, 100.), name='b')
        z0 = 0
        ev = []
        err = None
        seen = 0
        for rep in range(2):
            laser = None
            if with_laser:
                laser = GaussianPulse(
                    xi_min + 2.3 * dz * UNIT, 1., nr * dr * UNIT / 2.5,
                    1.5 * dz * UNIT / ct.c, l_0=UNIT / 3., z_foc=5 * UNIT,
                    cep_phase=rng.choice([0.6, -1.1, 2.8]))
            fld = GridField(
                lambda z: 1e20 * (1 + z / UNIT), nr * dr * UNIT, xi_min,
                xi_min + (nz - 1) * dz * UNIT, nr, nz, dz_fields=period * UNIT,
                laser=laser)
            # With two fields on the same element only one is written by name.
            el = PlasmaStage(L * UNIT, 1e20, fld, n_out=nout,
                             dt_bunch=2 * UNIT / ct.c)
            _, err = guarded(el.track, b, opmd_diag=diag,
                             show_progress_bar=False, limit=60)
            if err:
                ev.append({'a': 'fail'})
                break
            files = sorted(glob.glob(os.path.join(d, 'hdf5', '*.h5')))[seen:]
            seen += len(files)
            for j, f in enumerate(files):
                with h5py.File(f, 'r') as h:
                    it = h['data'][list(h['data'])[0]]
                    pos = j * L // nout
                    for c, path in enumerate(('E/r', 'E/t', 'E/z', 'B/r', 'B/t',
                                              'B/z', 'rho')):
                        v = record(it, 'fields/' + path)
                        v = v[0] if np.ndim(v) == 3 else np.full((nr, nz), -1.)
                        grp = it['fields/' + path.split('/')[0]]
                        if c == 6:
                            e_i = pos // period
                            v = v / (-ct.e) / fld.np_list[min(
                                e_i, len(fld.np_list) - 1)]
                        lab = [x.decode() if isinstance(x, bytes) else str(x)
                               for x in grp.attrs['axisLabels']]
                        sp = list(grp.attrs['gridSpacing'])
                        off = list(grp.attrs['gridGlobalOffset'])
                        if lab != ['r', 'z']:
                            sp = [0, 0]
                        vi = np.round(v)
                        if not np.allclose(v, vi, rtol=0, atol=1e-3):
                            vi = vi * 0 - 1
                        ev.append({
                            'a': 'mesh', 'comp': c, 'pos': pos,
                            'z0': z0, 'v': vi.astype(int).tolist(),
                            'dr': tick(sp[0], UNIT), 'dz': tick(sp[1], UNIT),
                            'off': tick(off[1] - xi_min, UNIT)
                            if off[0] == 0 else OFF})
                        if c in (0, 3, 6):
                            ev.append({'a': 'dims', 'rec': path.split('/')[0],
                                       'dim': dimension(it['fields'], path.split('/')[0])})
                        at = list(it['fields/' + path].attrs['position'])
                        ev.append({'a': 'point', 'at': [code_int(2 * v) for v in at]})
                    for c in ('a', 'a_mod', 'a_phase') if with_laser else ():
                        g = it['fields/' + c]
                        ok = [x.decode() if isinstance(x, bytes) else str(x)
                              for x in g.attrs['axisLabels']] == ['r', 'z']
                        sp, off = g.attrs['gridSpacing'], g.attrs['gridGlobalOffset']
                        ev.append({
                            'a': 'laser', 'comp': c, 'pos': pos, 'z0': z0,
                            'eval': laser_match(g[0], fld.env_list, c),
                            'dr': tick(sp[0], UNIT) if ok else OFF,
                            'dz': tick(sp[1], UNIT) if ok else OFF,
                            'off': tick(off[1] - xi_min, UNIT)
                            if off[0] == 0 else OFF})
            z0 += L
        traces.append({'id': f'mesh/{k}', 'ev': ev, 'error': err,
                       'cfg': {'rows': [], 'names': ['b'], 'period': period,
                               'nr': nr, 'nz': nz, 'dr': dr, 'dz': dz},
                       'scenario': [L, nout, period, nr, nz]})
    return traces


def run(chk, pid):
    chk.model('MCBeamline')
    rng = random.Random(77 + SEED)
    k = 5 if THOROUGH else 1
    traces = []
    n = {'P06': 240, 'P07': 160, 'P08': 120}[pid] * k
    for i in range(n):
        mode = None if (pid == 'P06' and i % 4) else \
            rng.choice(['one', 'one', 'dup', 'new'])
        if pid == 'P07' and i % 9 == 4:
            mode = None
        traces.append(line_trace(rng, f'line/{i}', rng.random() < .35, mode,
                                 rng.randint(1, 5)))
    if pid == 'P08':
        traces += mesh_traces(rng, 12 * k)
    chk.validate('TraceBeamline', traces)
