"""Drives the real tracker through many configurations and records what
bunches, fields and outputs do, as traces of spec/Tracker.tla.

Observation uses the extension points of the library only: a `Field` and
`NumericalField`s that note when they are gathered, evaluated or written, and
give every particle a minute, constant deflection.
"""
import os
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SCRATCH, SEED, THOROUGH, guarded, tick
import wake_t
from wake_t.beamline_elements import (
    FieldElement, PlasmaStage, PlasmaRamp, ActivePlasmaLens, FieldQuadrupole)
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.fields.base import Field
from wake_t.fields.numerical_field import NumericalField
from wake_t.particles.particle_bunch import ParticleBunch

PX, PZ = 1.0, 1000.0
KICK = 1e-7   # py per tick and field


class Recorder:
    def __init__(self, sc):
        self.sc = sc
        self.unit = sc['unit']
        self.ev = []
        self.bunches = []
        self.base = []
        self.open = {}      # bunch -> current push
        self.z0diag = 0.
        self.nb = len(sc['bunches'])
        g = np.sqrt(1 + PX**2 + PZ**2)
        self.xunit = PX / g * self.unit
        self.per_push = 1 if sc['pusher'] == 'boris' else 4
        # deflection of each field: KICK per tick
        self.e0 = KICK * ct.m_e * ct.c / (-ct.e) / (self.unit / ct.c)

    def index(self, n_part):
        for i, b in enumerate(self.bunches):
            if len(b.x) == n_part:
                return i
        return None

    def pos(self, i):
        return tick(self.bunches[i].prop_distance - self.base[i], self.unit)

    def xpos(self, bunch, i, x=None, half=False):
        """Position from the particles themselves (all have to agree)."""
        x = bunch.x if x is None else x
        d = (np.asarray(x) - self.x0[i]) / self.xunit
        if half:
            d = d * 2
        n = np.round(d)
        if len(d) == 0 or np.max(np.abs(d - n)) > 1e-3 or np.ptp(n) > 0:
            return OFF
        return int(n[0])

    def gather(self, x, t):
        i = self.index(len(x))
        if i is None:
            self.ev.append({'a': 'unknown'})
            return
        p = self.open.get(i)
        prop = self.bunches[i].prop_distance
        if p is None or len(p['g']) == self.per_push or p['prop'] != prop:
            self.close(i)
            p = {'a': 'push', 'b': i + 1, 's': self.pos(i), 'e': OFF,
                 'g': [], 'gx': [], 'ft': list(self.ft), 'felt': OFF,
                 'prop': prop, 'py': self.bunches[i].py.copy()}
            self.open[i] = p
            self.ev.append(p)
        p['g'].append(tick(t * ct.c, self.unit / 2))
        p['gx'].append(self.xpos(None, i, x, half=True))

    def close(self, i):
        p = self.open.pop(i, None)
        if p is None:
            return
        p['e'] = self.pos(i)
        d = (self.bunches[i].py - p['py']) / (KICK * (1 + self.nf))
        n = np.round(d)
        p['felt'] = int(n[0]) if (np.max(np.abs(d - n)) < 1e-3 and
                                  np.ptp(n) == 0) else OFF

    def finish(self):
        for i in range(self.nb):
            self.close(i)
        out = []
        for e in self.ev:
            if e['a'] == 'push':
                if e['e'] == e['s'] and len(set(e['g'])) == 1 \
                        and e['g'][0] == 2 * e['s']:
                    continue         # a step of no length
                if self.sc['bunches'][e['b'] - 1]['inj'] >= 0 \
                        and e['felt'] == 0:
                    continue         # a step in which no field is felt
                e.pop('prop')
                e.pop('py')
            out.append(e)
        self.ev = out


class Observer(Field):
    def __init__(self, rec):
        super().__init__(openpmd_diag_supported=True)
        self.rec = rec

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        self.rec.gather(x, t)
        ey += self.rec.e0

    def _get_openpmd_diagnostics_data(self, global_time):
        r = self.rec
        r.ev.append({'a': 'out',
                     't': tick(global_time * ct.c - r.z0diag, r.unit),
                     'pos': [r.pos(i) for i in range(r.nb)]})
        return None


class Probe(NumericalField):
    def __init__(self, rec, j, dt, even):
        super().__init__(dt_update=dt, force_even_updates=even)
        self.rec, self.j = rec, j
        self.n_init = self.n_evolve = 0

    def _initialize_properties(self, bunches):
        self.n_init += 1

    def _evolve_properties(self, bunches):
        self.n_evolve += 1

    def _calculate_field(self, bunches):
        r = self.rec
        t = tick(self.t * ct.c, r.unit)
        seen = []
        for i, b in enumerate(bunches):
            seen.append(r.pos(i) if i < r.nb and b is r.bunches[i] else OFF)
        r.ft[self.j] = t
        r.ev.append({'a': 'calc', 'f': self.j + 1, 't': t, 'seen': seen,
                     'init': self.n_init, 'evolve': self.n_evolve})
        self.n_init = self.n_evolve = 0

    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        ey += self.rec.e0


def make_bunch(i, sc, rng):
    b = sc['bunches'][i]
    n = i + 1 if i else 1
    n = [1, 3, 2, 5][i]
    # The foremost particle is anywhere in the bunch, and at xi=b.xi0.
    xi0 = b.get('xi0', 0) * sc['unit']
    xi = xi0 - np.arange(n) * 7.3 * sc['unit']
    rng2 = np.random.default_rng(rng.randrange(2**31))
    xi = rng2.permutation(xi)
    x = rng2.uniform(-1, 1, n) * 1e-3 * sc['unit']
    y = rng2.uniform(-1, 1, n) * 1e-3 * sc['unit']
    base = b.get('base', 0) * sc['unit']
    zi = None
    if b['inj'] > 0 and rng.random() < .3:      # the bunch is injected at z = 0
        xi -= xi0
        xi0 = -base - (b['inj'] - 0.5) * sc['unit']
        xi += xi0
    if b['inj'] == 0:
        zi = xi0 + base           # foremost particle exactly there
    elif b['inj'] > 0:
        zi = xi0 + base + (b['inj'] - 0.5) * sc['unit']
        zi = zi if abs(zi) > 1e-6 * sc['unit'] else 0.
    return ParticleBunch(
        np.linspace(1, 2, n), x.copy(), y.copy(), xi.copy(),
        np.full(n, PX), np.zeros(n), np.full(n, PZ), prop_distance=base,
        z_injection=zi, name=f'b{i}')


def same(a, b):
    return all(np.array_equal(getattr(a, k), getattr(b, k)) for k in
               ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')) and \
        a.prop_distance == b.prop_distance


def make_element(rng, sc, dts, fields, auto):
    """An element of any class that tracks in the given fields."""
    L = sc['L'] * sc['unit']
    kw = {'dt_bunch': dts}
    # the defaults are as good as the same values given explicitly
    for key, val, default in (('bunch_pusher', sc['pusher'], 'boris'),
                              ('n_out', sc['nout'], 1),
                              ('push_bunches_before_diags', sc['pre'], True)):
        if val != default or rng.random() < .5:
            kw[key] = val
    kind = rng.choice(['field', 'field', 'field', 'stage', 'ramp', 'lens', 'quad'])
    if any(b['auto'] for b in sc['bunches']):
        kind = 'field'
    if kind == 'stage':
        return PlasmaStage(L, 1e20, wakefield_model=fields[0],
                           external_fields=fields[1:], **kw)
    if kind == 'ramp':
        return PlasmaRamp(L, plasma_dens_top=1e20, plasma_dens_down=1e18,
                          wakefield_model=fields[0], external_fields=fields[1:],
                          **kw)
    if kind in ('lens', 'quad'):
        if kind == 'quad' and not sc['pre']:
            kind = 'lens'
        if kind == 'quad':
            kw.pop('push_bunches_before_diags', None)
        el = (ActivePlasmaLens if kind == 'lens' else FieldQuadrupole)(L, 0., **kw)
        if isinstance(getattr(el, 'fields', None), list):
            el.fields.extend(fields)
            return el
        kw['push_bunches_before_diags'] = sc['pre']
    return FieldElement(L, fields=fields, auto_dt_bunch=auto, **kw)


def run_scenario(sc):
    """Returns the list of traces (one per tracking) of a scenario."""
    rng = random.Random(sc['seed'])
    rec = Recorder(sc)
    unit = sc['unit']
    rec.bunches = [make_bunch(i, sc, rng) for i in range(rec.nb)]
    rec.nf = len(sc['fields'])
    fields = [Probe(rec, j, f['dt'] * unit / ct.c * (1 + 1e-9 * f['even']),
                    f['even']) for j, f in enumerate(sc['fields'])]
    fields.insert(rng.randrange(rec.nf + 1), Observer(rec))

    def auto(bunch):
        i = rec.index(len(bunch.x))
        b = sc['bunches'][i]
        p = rec.pos(i)
        if p == OFF:
            p = int((bunch.prop_distance - rec.base[i]) / unit)
        return (b['dt'] + (p * b['a2']) % b['a3']) * unit / ct.c

    dts = ['auto' if b['auto'] else b['dt'] * unit / ct.c
           for b in sc['bunches']]
    if len(set(map(str, dts))) == 1 and rng.random() < 0.5:
        dts = dts[0]
    Ls = sc.get('Ls') or [sc['L']] * sc.get('rep', 1)
    elem = make_element(rng, sc, dts, fields, auto)
    diag = False
    if sc['obs']:
        d = os.path.join(SCRATCH, f"diag_{sc['name'].replace('/', '_')}")
        diag = OpenPMDDiagnostics(write_dir=d)
    traces = []
    for rep, L in enumerate(Ls):
        if L != sc['L']:
            # the same fields and bunches in another element
            sc = dict(sc, L=L)
            elem = make_element(rng, sc, dts, fields, auto)
        before = sum(Ls[:rep])
        rec.ev = []
        rec.open = {}
        rec.ft = [OFF] * rec.nf
        rec.base = [b.prop_distance for b in rec.bunches]
        rec.x0 = [b.x.copy() for b in rec.bunches]
        initial = [b.copy() for b in rec.bunches]
        rec.z0diag = before * unit
        cfg = {'L': sc['L'], 'nout': sc['nout'], 'pre': sc['pre'],
               'obs': sc['obs'], 'pusher': sc['pusher'], 'fields': sc['fields'],
               'bunches': [
                   dict(auto=b['auto'], dt=b['dt'], a2=b['a2'], a3=b['a3'],
                        inj=b['inj'] if b['inj'] <= 0 else
                        max(0, b['inj'] - before))
                   for b in sc['bunches']]}
        arg = rec.bunches[0] if rec.nb == 1 else rec.bunches
        out, err = guarded(elem.track, arg, opmd_diag=diag,
                           show_progress_bar=False, limit=60)
        rec.finish()
        if err is None:
            lists = [out] if rec.nb == 1 else out
            if rec.nb == 1 and sc['nout'] == 0 and out == []:
                lists = [[]]
            rec.ev.append(end_event(rec, sc, lists, initial))
        else:
            rec.ev.append({'a': 'fail'})
        traces.append({'id': f"{sc['name']}#{rep}", 'cfg': cfg,
                       'ev': rec.ev, 'scenario': sc, 'error': err})
        if err:
            break
    return traces


def end_event(rec, sc, lists, initial):
    e = {'a': 'end', 'pos': [], 'xpos': [], 'outs': [], 'first': [],
         'last': [], 'own': []}
    for i, b in enumerate(rec.bunches):
        e['pos'].append(rec.pos(i))
        e['xpos'].append(rec.xpos(b, i))
    for i, lst in enumerate(lists[:rec.nb]):
        b = rec.bunches[i]
        pos = []
        own = True
        for s in lst:
            own &= len(s.x) == len(b.x) and s.name == b.name
            p = tick(s.prop_distance - rec.base[i], rec.unit)
            xp = rec.xpos(s, i) if len(s.x) == len(b.x) else OFF
            pos.append(p if p == xp else OFF)
        e['outs'].append(pos)
        e['own'].append(bool(own))
        e['first'].append(bool(not lst or same(lst[0], initial[i])))
        e['last'].append(bool(not lst or same(lst[-1], b))
                         if sc['pre'] or not lst else
                         bool(pos[-1] != sc['L'] or same(lst[-1], b)))
    if len(lists) != rec.nb:
        e['outs'] = []
        e['own'] = e['first'] = e['last'] = [True] * rec.nb
    return e


def mismatch_traces():
    """Lists of time steps of the wrong size."""
    traces = []
    for nb in (1, 2, 3):
        for nd in (0, 1, 2, 3, 4):
            sc = dict(L=6, nout=1, pre=True, obs=False, pusher='boris',
                      fields=[dict(dt=2, even=False)], unit=1e-3, seed=1,
                      name='list',
                      bunches=[dict(auto=False, dt=2, a2=0, a3=1, inj=-1)] * nb)
            rec = Recorder(sc)
            rng = random.Random(1)
            rec.bunches = [make_bunch(i, sc, rng) for i in range(nb)]
            rec.base = [0.] * nb
            rec.x0 = [b.x.copy() for b in rec.bunches]
            rec.nf = 1
            rec.ft = [OFF]
            initial = [b.copy() for b in rec.bunches]
            el = FieldElement(6e-3, [2e-3 / ct.c] * nd, n_out=1,
                              fields=[Observer(rec), Probe(rec, 0, 2e-3 / ct.c, False)])
            out, err = guarded(el.track, rec.bunches, show_progress_bar=False,
                               limit=30)
            kind = 'none' if err is None else (
                'ValueError' if 'ValueError' in err.strip().splitlines()[-1]
                else 'other')
            traces.append({
                'id': f'list/{nb}/{nd}', 'scenario': [nb, nd], 'error': err,
                'cfg': {'L': 6, 'nout': 1, 'pre': True, 'obs': False,
                        'pusher': 'boris', 'fields': sc['fields'],
                        'bunches': sc['bunches']},
                'ev': [{'a': 'list', 'nb': nb, 'nd': nd, 'raised': kind,
                        'touched': bool(not all(map(same, rec.bunches, initial))
                                        or rec.ev != [])}]})
    return traces


def scenarios(pid):
    rng = random.Random(1000 + SEED)
    out = []
    units = [1e-3, 1.37e-5, 0.0625, 2.9e-6, 0.31]

    def bunch(auto=False, dt=2, a2=0, a3=1, inj=-1, **k):
        return dict(auto=auto, dt=dt, a2=a2, a3=a3, inj=inj, **k)

    def add(name, L, nout, pre, pusher, bunches, fields, **k):
        out.append(dict(name=name, L=L, nout=nout, pre=pre, pusher=pusher,
                        bunches=bunches, fields=fields,
                        obs=bool(k.pop('obs', False)) and nout > 0,
                        unit=k.pop('unit', units[len(out) % len(units)]),
                        seed=len(out), **k))

    # Systematic: one bunch, one field.
    for L in (6, 7):
        for nout in (n for n in range(0, L + 1) if n == 0 or L % n == 0):
            for pre in (True, False):
                for dt in (1, 2, 3, 4, L, L + 3):
                    for fdt in (0, 1, 2, 4, L, L + 2):
                        add(f's/{L}/{nout}/{pre}/{dt}/{fdt}', L, nout, pre,
                            'boris' if (dt + fdt) % 3 else 'rk4',
                            [bunch(dt=dt)],
                            [dict(dt=fdt, even=False)] if fdt else [],
                            rep=2 if (dt + nout) % 4 == 0 else 1)
    # Even updates (only where the period is a whole number of ticks), tracked
    # repeatedly, including numbers of updates for which the reciprocal of the
    # reciprocal is not the number itself.
    for L, reqs in ((12, (1, 2, 3, 4, 5, 6, 11, 12, 20)), (30, (2, 3, 7, 10)),
                    (49, (1,)), (98, (1, 2)), (103, (1,))):
        for req in reqs:
            n = -(-L // req)
            if L % n == 0:
                add(f'even/{L}/{req}', L, rng.choice([0, 1]), True, 'boris',
                    [bunch(dt=rng.choice([3, 5, 40]))],
                    [dict(dt=req, even=True)], rep=4)
    # Lengths that are just above or below a whole number of steps.
    for L in (199, 201, 401, 402, 599, 601):
        for dt in (100, 200):
            for auto in (False, True):
                pre = bool((L + dt + auto) % 2)
                add(f'just/{L}/{dt}/{auto}', L, rng.choice([0, 1]), pre,
                    rng.choice(['boris', 'rk4']),
                    [bunch(auto, dt, 0, 1), bunch(dt=dt // 2)],
                    [dict(dt=rng.choice([dt, dt - 1, 150]), even=False)])
    # Outputs and ends shortly before or after a step.
    for k in range(60 if THOROUGH else 24):
        L = rng.choice([100, 120, 200, 300])
        nout = rng.choice([1, 2, 4, 5])
        p = L // nout
        add(f'edge/{k}', L, nout, rng.random() < .75, rng.choice(['boris', 'rk4']),
            [bunch(dt=rng.choice([p - 1, p + 1, (p - 1) // 2, (p + 1) // 3, L - 1]))
             for j in range(rng.choice([1, 2]))],
            [dict(dt=rng.choice([p, p - 1, p + 1, L // 2 + 1]), even=False)], rep=rng.choice([1, 2]))
    # Fields on their own: no bunches at all.
    for k in range(12):
        L = rng.choice([6, 12, 24])
        nout = rng.choice([0, 1, 2, 3, 6])
        add(f'empty/{k}', L, nout, rng.random() < 0.6, 'boris', [],
            [dict(dt=rng.choice([1, 2, 3, 5, 7, L]), even=False)
             for j in range(rng.choice([1, 2]))],
            obs=k % 3 == 0, rep=rng.choice([1, 2, 3]))
    # Random.
    n_rand = 1500 if THOROUGH else 260
    for k in range(n_rand):
        L = rng.choice([6, 8, 12, 12, 18, 24, 36, 60] + ([240] if THOROUGH else []))
        nout = rng.choice([0] + [n for n in range(1, L + 1) if L % n == 0])
        nb = rng.choice([1, 1, 2, 2, 3, 4])
        bs = []
        for i in range(nb):
            auto = rng.random() < 0.45
            dt = rng.choice([1, 2, 3, 4, 5, 7, L // 2, L - 1, L, L + 1, 2 * L])
            inj = -1
            if rng.random() < (0.8 if pid == 'P11' else 0.15):
                inj = rng.choice([0, 1, 2, L // 3, L // 2, L - 1, L, L + 2,
                                  L + L // 2, 2 * L])
            bs.append(bunch(auto, min(dt, L) if auto else dt,
                            rng.choice([1, 2, 3]) if auto else 0,
                            rng.choice([2, 3, 4]) if auto else 1, inj,
                            base=rng.choice([0, 0, 13, -7]),
                            xi0=rng.choice([0, 0, -9, 5])))
        fs = []
        for j in range(rng.choice([0, 1, 1, 2, 3])):
            even = rng.random() < 0.3
            d = rng.choice([1, 2, 3, 4, 5, 7, L // 2, L, L + 1])
            if even:
                n = -(-L // d)
                even = L % n == 0
            fs.append(dict(dt=d, even=even))
        add(f'r/{k}', L, nout, rng.random() < 0.6,
            rng.choice(['boris', 'boris', 'rk4']), bs, fs,
            obs=rng.random() < (0.3 if nout <= 12 else 0.02),
            rep=rng.choice([1, 1, 2, 3]))
    # The same fields in elements of different lengths.
    for k in range(300 if THOROUGH else 60):
        nout = rng.choice([0, 1, 2, 3])
        fs = [dict(dt=rng.choice([1, 2, 3, 4, 5, 7, 11]), even=rng.random() < .7)
              for j in range(rng.choice([1, 2]))]
        fits = [L for L in range(4, 41) if (nout == 0 or L % nout == 0) and
                all(L % -(-L // f['dt']) == 0 for f in fs if f['even'])]
        Ls = [rng.choice(fits) for _ in range(rng.choice([2, 3, 4]))]
        auto = rng.random() < .3
        add(f'lengths/{k}', Ls[0], nout, rng.random() < .7,
            rng.choice(['boris', 'rk4']),
            [bunch(auto, rng.choice([1, 2, 3]), 1 if auto else 0,
                   3 if auto else 1, rng.choice([-1, -1, 2, Ls[0] + 1]))
             for _ in range(rng.choice([1, 2]))], fs, Ls=Ls,
            obs=k % 4 == 0)
    return out


def run(chk, pid):
    chk.model('MCTracker', 'MCTrackerBig.cfg' if THOROUGH else None)
    traces = []
    for sc in scenarios(pid):
        traces += run_scenario(sc)
    if pid == 'P02':
        traces += mismatch_traces()
    chk.validate('TraceTracker', traces)
