"""Bunch objects: identity of particles, copies and outputs (Bunches.tla),
phase-space representations (Phase.tla)."""
import random

import numpy as np
import scipy.constants as ct

from vlib import OFF, SEED, THOROUGH, guarded
import beamline_suite as bl
from wake_t import Beamline
from wake_t.beamline_elements import Drift, Quadrupole, Dipole, Sextupole
from wake_t.particles.particle_bunch import ParticleBunch

ARR = ('x', 'y', 'xi', 'px', 'py', 'pz', 'w', 'tags')


class Heap:
    def __init__(self):
        self.objs = []
        self.tok = {}
        self.ev = []

    def t(self, v):
        if isinstance(v, np.ndarray):
            k = ('a', v.dtype.kind, v.shape, v.tobytes())
        elif isinstance(v, (float, int, np.floating, np.integer)):
            k = ('f', float(v))
        else:
            k = ('o', repr(v))
        return self.tok.setdefault(k, len(self.tok) + 1)

    def dump(self):
        out = []
        for b in self.objs:
            out.append({
                **{a: self.t(getattr(b, a)) for a in ARR},
                'prop': self.t(getattr(b, 'prop_distance', None)), 'tflight': self.t(getattr(b, 't_flight', None)),
                'zinj': self.t(getattr(b, 'z_injection', None)), 'name': self.t(getattr(b, 'name', None)),
                'q': self.t(getattr(b, 'q_species', None)), 'm': self.t(getattr(b, 'm_species', None)),
                'xref': self.t(getattr(b, 'x_ref', None)), 'thref': self.t(getattr(b, 'theta_ref', None)),
                'n': len(b.x)})
        return out

    def note(self, **e):
        e['all'] = self.dump()
        self.ev.append(e)


def new_bunch(rng, g, i):
    n = rng.choice([1, 2, 4, 7, 7, 60])
    named = rng.random() < .5
    pos = rng.random() < .4
    b = ParticleBunch(
        g.uniform(1, 2, n), g.normal(0, 1e-6, n), g.normal(0, 1e-6, n),
        g.normal(0, 1e-6, n), g.normal(0, .1, n), g.normal(0, .1, n),
        g.normal(300, 3, n),
        tags=g.permutation(n) + 100 * i if rng.random() < .6 else None,
        prop_distance=rng.choice([0, 0.25]),
        t_flight=rng.choice([0, 1e-9]),
        z_injection=rng.choice([None, None, 0.001, 0.3]),
        name=f'named{i}' if named else None,
        q_species=ct.e if pos else -ct.e,
        m_species=3 * ct.m_e if pos else ct.m_e)
    if rng.random() < .3:
        b.x_ref, b.theta_ref = 1e-4, 0.02
    return b, not named


def heap_trace(rng, name, n_ops):
    g = np.random.default_rng(rng.randrange(2**31))
    h = Heap()
    err = None
    script = []
    try:
        for k in range(n_ops):
            op = 'new' if not h.objs else rng.choice(
                ['new', 'copy', 'copy', 'edit', 'edit', 'edit', 'track',
                 'track', 'track'])
            if len(h.objs) > 25 and op in ('new', 'copy', 'track'):
                op = 'edit'
            script.append(op)
            if op == 'new':
                b, unnamed = new_bunch(rng, g, k)
                h.objs.append(b)
                h.note(a='new', unnamed=unnamed)
                if rng.random() < .1:
                    more = [ParticleBunch(*np.ones((7, 1))) for _ in range(rng.choice([3, 300]))]
                    h.note(a='names', names=[h.t(c.name) for c in more])
            elif op == 'copy':
                o = rng.randrange(len(h.objs))
                c, err = guarded(h.objs[o].copy)
                if err:
                    break
                h.objs.append(c)
                h.note(a='copy', o=o + 1)
            elif op == 'edit':
                o = rng.randrange(len(h.objs))
                b = h.objs[o]
                at = rng.choice(list(ARR) + ['prop', 'name', 'zinj', 'tflight'])
                if at in ARR:
                    a = getattr(b, at)
                    if at == 'tags' and a is None:
                        b.tags = np.arange(len(b.x)) + 7 * k
                    elif at == 'w':
                        a[rng.randrange(len(a))] *= 1.5
                    elif at == 'tags':
                        a[rng.randrange(len(a))] += 1000 + k
                    elif at == 'pz':
                        a[rng.randrange(len(a))] *= 1.01
                    else:
                        a[rng.randrange(len(a))] += 1e-7 * (k + 1)
                elif at == 'prop':
                    b.prop_distance += 0.125
                elif at == 'name':
                    b.set_name(f'renamed{k}')
                elif at == 'zinj':
                    b.z_injection = 0.01 * k
                else:
                    b.t_flight = 1e-9 * k
                h.note(a='edit', o=o + 1, at=at)
            else:
                err = do_track(rng, h)
                if err:
                    break
    except Exception:
        import traceback
        tb = traceback.format_exc()
        if '/repo/wake_t' not in tb:
            raise
        err = tb
    if err:
        h.ev.append({'a': 'fail'})
    return {'id': name, 'cfg': {'k': 0}, 'ev': h.ev, 'error': err,
            'scenario': script}


def do_track(rng, h):
    e = bl.random_elements(rng, 1, False)[0]
    tm = e['type'] in bl.TM
    multi = not tm and len(h.objs) > 1 and rng.random() < .4
    os = rng.sample(range(len(h.objs)), min(len(h.objs), rng.choice([2, 3]))) \
        if multi else [rng.randrange(len(h.objs))]
    el = bl.build(e)
    kw = {}
    if tm and rng.random() < .4:
        kw['out_initial'] = True
    elif rng.random() < .3:
        el = Beamline([el])
    arg = [h.objs[o] for o in os] if multi else h.objs[os[0]]
    out, err = guarded(el.track, arg, show_progress_bar=False, limit=60, **kw)
    if err:
        return err
    lists = out if multi else [out]
    if multi and len(lists) != len(os):
        lists = [[] for _ in os]
    outs = []
    for lst in lists:
        ids = []
        for s in lst:
            h.objs.append(s)
            ids.append(len(h.objs))
        outs.append(ids)
    h.note(a='track', os=[o + 1 for o in os], outs=outs,
           initial=not tm or bool(kw), final=e['n'] > 0)
    return None


def match(whole, cand, scale):
    """Index (from 1) of the particle of the whole that agrees with cand."""
    d = np.max(np.abs((whole - cand[:, None]) / scale[:, None]), axis=0)
    j = int(np.argmin(d))
    return j + 1 if d[j] < 1e-7 else 0


def alone_trace(rng, name):
    g = np.random.default_rng(rng.randrange(2**31))
    n = rng.choice([3, 5, 8])
    e = bl.random_elements(rng, rng.choice([1, 1, 2, 3]), rng.random() < .5)
    q, m = rng.choice([(-ct.e, ct.m_e), (ct.e, 2 * ct.m_e)])
    cols = [g.uniform(1, 3, n), g.normal(0, 1e-5, n), g.normal(0, 1e-5, n),
            g.normal(0, 1e-5, n), g.normal(0, 1, n), g.normal(0, 1, n),
            g.normal(300, 10, n)]
    tags = np.arange(n) + 10
    how = rng.choice(['phase', 'matrix'])

    def elements():
        out = []
        for d in e:
            el = bl.build(d)
            if d['type'] in bl.TM:
                el.gamma_ref = 301.
            out.append(el)
        return out

    def go(idx, before=None):
        """Particles `idx`, tracked in a bunch that may have had others before."""
        first = idx if before is None else before
        b = ParticleBunch(*(c[first].copy() for c in cols), tags=tags[first].copy(),
                          name='t', q_species=q, m_species=m)
        if before is not None:
            for el in elements():
                el.track(b, show_progress_bar=False)
            new = [c[idx].copy() for c in cols]
            if how == 'phase':
                b.set_phase_space(*new[1:])
                b.w = new[0]
            else:
                b.set_bunch_matrix(np.array([*new[1:], new[0] * q]))
            b.tags = tags[idx].copy()
            b.prop_distance, b.x_ref, b.theta_ref = 0., 0., 0.
        for el in elements():
            el.track(b, show_progress_bar=False)
        return np.array([b.x, b.y, b.xi, b.px, b.py, b.pz, b.w, b.tags])

    def all_runs():
        whole = go(np.arange(n))
        scale = np.ptp(whole, axis=1) + 1e-300
        alone = [match(whole, go(np.array([i]))[:, 0], scale) for i in range(n)]
        perm = g.permutation(n)
        pw = go(perm)
        k = rng.randint(1, n - 1)
        less, more = perm[:k], perm[:n]
        if rng.random() < .5:
            less, more = more, less
        rw = go(more, before=less)
        return (alone, [match(whole, pw[:, i], scale) for i in range(n)],
                [int(p) + 1 for p in perm],
                [match(whole, rw[:, i], scale) for i in range(len(more))],
                [int(p) + 1 for p in more])
    res, err = guarded(all_runs, limit=120)
    if err:
        ev = [{'a': 'fail'}]
    else:
        ev = [{'a': 'alone', 'alone': res[0], 'permuted': res[1],
               'perm': res[2]},
              {'a': 'replaced', 'got': res[3], 'want': res[4]}]
    return {'id': name, 'cfg': {'k': 0}, 'ev': ev, 'error': err, 'scenario': e}


# ---------------------------------------------------------------------------
DIRS = [(2, 3, 6, 7), (-1, 2, 2, 3), (4, -4, 7, 9), (-2, -6, 9, 11),
        (6, 2, 3, 7), (0, 0, 1, 1), (0, 3, 4, 5), (-3, 0, 4, 5)]
ENER = [(3, 4, 5), (4, 3, 5), (12, 5, 13), (15, 8, 17), (24, 7, 25)]
K, D = 840, 3465
LEN = 1e-6


def ints(v, unit, tol=1e-4):
    v = np.asarray(v, dtype=float) / unit
    out = []
    for a in np.atleast_1d(v):
        out.append(int(round(a)) if np.isfinite(a) and abs(a - round(a)) <
                   tol * max(1., abs(a) * 1e-5) and abs(a) < 2**31 - 1 else OFF)
    return out


def phase_trace(rng, name):
    zq = rng.choice([-1, 1, 2, -3])
    qs = zq * ct.e

    def parts():
        n = rng.choice([1, 2, 3, 6])
        return [dict(x=rng.randint(-9, 9), y=rng.randint(-9, 9),
                     xi=rng.randint(-9, 9), d=rng.randint(1, 8),
                     e=rng.randint(1, 5), w=rng.randint(1, 9))
                for _ in range(n)]

    def make(ps):
        d = [DIRS[p['d'] - 1] for p in ps]
        e = [ENER[p['e'] - 1] for p in ps]
        mom = [np.array([b[0] / b[1] * a[k] / a[3] for a, b in zip(d, e)])
               for k in range(3)]
        f = {k: np.array([p[k] for p in ps], dtype=float)
             for k in ('x', 'y', 'xi', 'w')}
        return ParticleBunch(f['w'], f['x'] * LEN, f['y'] * LEN, f['xi'] * LEN,
                             *mom, name='b', q_species=qs)

    def plain(b):
        return [ints(b.x, LEN), ints(b.y, LEN), ints(b.xi, LEN),
                ints(b.px, 1 / (K * D)), ints(b.py, 1 / (K * D)),
                ints(b.pz, 1 / (K * D)), ints(b.w, 1.)]

    cur = parts()
    b = make(cur)
    cfg = {'bunch': cur, 'zq': zq}
    ev = []
    err = None
    mu = {'x': LEN, 'y': LEN, 'xi': LEN, 'px': 1 / (K * D), 'py': 1 / (K * D),
          'pz': 1 / (K * D), 'q': ct.e, 'w': 1.}
    lay = {'bunch': 'x y xi px py pz q', '6d': 'x px y py xi pz',
           '6dq': 'x px y py xi pz q'}

    def get(b, kind):
        if kind == 'bunch':
            m = b.get_bunch_matrix()
        elif kind == '6d':
            m = b.get_6D_matrix()
        elif kind == '6dq':
            m = b.get_6D_matrix_with_charge()
        elif kind == 'charge':
            return b.q, [ints(b.q, ct.e)], 0
        elif kind == 'alt':
            m, ga = b.get_alternative_6D_matrix()
            rows = [ints(m[0], LEN), ints(m[1], 1 / D), ints(m[2], LEN),
                    ints(m[3], 1 / D), ints(m[4], LEN),
                    ints((1 + np.asarray(m[5])) * ga, 1 / K)]
            return (m, ga), rows, ints(ga * np.sum(b.w), 1 / K)[0]
        return m, [ints(r, mu[f]) for r, f in zip(m, lay[kind].split())], 0

    def step():
        nonlocal b, cur
        op = rng.choice(['get', 'get', 'set', 'set', 'move'])
        if op == 'get':
            kind = rng.choice(['bunch', '6d', '6dq', 'alt', 'charge'])
            _, rows, wg = get(b, kind)
            ev.append({'a': 'get', 'kind': kind, 'rows': rows, 'wg': wg,
                       'plain': plain(b)})
        elif op == 'set':
            src = cur if rng.random() < .5 else parts()
            other = make(src)
            how = rng.choice(['bunch', 'new6d', 'set6d', 'newalt', 'setalt',
                              'phase', 'qset'])
            if how == 'bunch':
                b.set_bunch_matrix(get(other, 'bunch')[0])
            elif how == 'new6d':
                b = ParticleBunch(other.w, bunch_matrix=get(other, '6d')[0],
                                  name='b', q_species=qs)
            elif how == 'set6d':
                b.w = other.w
                b.set_phase_space_from_matrix(get(other, '6dq')[0])
            elif how == 'newalt':
                m, ga = get(other, 'alt')[0]
                b = ParticleBunch(other.w, bunch_matrix=m, name='b',
                                  matrix_type='alternative', gamma_ref=ga,
                                  q_species=qs)
            elif how == 'setalt':
                m, ga = get(other, 'alt')[0]
                b.w = other.w
                b.set_phase_space_from_alternative_matrix(m, ga)
            elif how == 'phase':
                b.w = other.w
                b.set_phase_space(other.x, other.y, other.xi, other.px,
                                  other.py, other.pz)
            else:
                b.set_phase_space(other.x, other.y, other.xi, other.px,
                                  other.py, other.pz)
                b.w = np.zeros(len(other.x))
                b.q = get(other, 'charge')[0]
            cur = src
            ev.append({'a': 'set', 'how': how, 'src': src, 'plain': plain(b),
                       'qtot': ints(np.sum(b.q), ct.e)[0]})
        else:
            W = sum(p['w'] for p in cur)
            to = rng.randint(-50, 50)
            c = b.copy()
            c.reposition_xi(to / W * LEN)
            rest = plain(c)
            rest[2] = plain(b)[2]
            ev.append({'a': 'move', 'to': to,
                       'xiw': ints(c.xi, LEN / W, tol=1e-3), 'rest': rest})
    for _ in range(rng.randint(2, 8)):
        _, err = guarded(step)
        if err:
            ev.append({'a': 'fail'})
            break
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err, 'scenario': 'phase'}


def run(chk, pid):
    rng = random.Random(4242 + SEED)
    k = 6 if THOROUGH else 1
    if pid == 'P12':
        chk.model('MCPhase')
        chk.validate('TracePhase', [phase_trace(rng, f'phase/{i}')
                                    for i in range(500 * k)])
        return
    chk.model('MCBunches')
    traces = [heap_trace(rng, f'heap/{i}', rng.randint(4, 16))
              for i in range((150 if pid == 'P10' else 80) * k)]
    if pid == 'P09':
        traces += [alone_trace(rng, f'alone/{i}') for i in range(90 * k)]
    chk.validate('TraceBunches', traces)
