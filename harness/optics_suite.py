"""Transfer-map elements (Optics.tla)."""
import math
import os
import random
from fractions import Fraction

import numpy as np

from vlib import OFF, SEED, THOROUGH, guarded
from wake_t import Beamline, Drift, Dipole, ParticleBunch, Quadrupole, Sextupole
from wake_t.beamline_elements import TMElement

ANGLE = {'quarter': math.pi / 2, '345': math.atan2(3, 4), 'ln2': math.log(2)}
MOMENTA = [(4, 3, 5), (3, 4, 5), (12, 5, 13), (24, 7, 25)]
Q = 576000          # coordinates are multiples of this


def code(v, tol=.02):
    if not np.isfinite(v) or abs(v) > 2**30:
        return OFF
    n = int(round(v))
    return n if abs(v - n) <= tol else OFF


def make_bunch(ps, w, p, unit):
    """Bunch of particles given in the frame of the reference."""
    a = {k: np.array([q[k] for q in ps], dtype=float) * unit for k in 'xuyvld'}
    g = math.sqrt(1 + p * p) + a['d'] * p
    px, py = a['u'] * p, a['v'] * p
    pz = np.sqrt(g**2 - 1 - px**2 - py**2)
    return ParticleBunch(np.array(w, dtype=float), a['x'], a['y'], a['l'],
                         px, py, pz)


def frame(b):
    """Coordinates of a bunch in the frame of its reference."""
    c, s = math.cos(b.theta_ref), math.sin(b.theta_ref)
    x = b.x - b.x_ref
    g = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
    return (c * x - s * b.xi, c * b.px - s * b.pz, b.y, b.py,
            s * x + c * b.xi, s * b.px + c * b.pz, g)


def observe(b, p, unit, base, n):
    x, px, y, py, xi, pz, g = frame(b)
    gr = math.sqrt(1 + p * p)
    cols = [x / unit, px / p / unit, y / unit, py / p / unit, xi / unit,
            (g - gr) / p / unit]
    ok = np.all(pz > 0)
    ps = [{k: code(c[i]) if ok else OFF for k, c in zip('xuyvld', cols)}
          for i in range(len(x))]
    ang = b.theta_ref / ANGLE[base]
    return {'ps': ps, 'um': code(b.prop_distance * 1e6, 1.),
            'ang': code(ang, 1e-6), 'xref': code(b.x_ref * n, 1e-6)}


def same_bunch(a, b):
    return all(np.array_equal(getattr(a, k), getattr(b, k))
               for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')) and \
        a.prop_distance == b.prop_distance and a.theta_ref == b.theta_ref \
        and a.x_ref == b.x_ref


def particles(rng, mean_free, plane, yoff):
    z = dict(x=0, u=0, y=0, v=0, l=0, d=0, known=True)
    ps, w = [dict(z)], [1]
    for _ in range(rng.randint(1, 3)):
        q = dict(z)
        for k in ('xu' if plane == 'x' else 'yv'):
            q[k] = rng.choice([-2, -1, 0, 1, 2]) * Q
        if plane == 'xy':
            for k in 'xuyv':
                q[k] = rng.choice([-2, -1, 0, 1, 2]) * Q
        if yoff:
            q['y'] = rng.choice([-1, 0, 1]) * Q
        q['l'] = rng.choice([-1, 0, 2]) * Q
        ps.append(q)
        w.append(rng.randint(1, 4))
    if rng.random() < .7:
        d = rng.choice([-1, 1]) * Q
        a, b = dict(ps[-1], d=2 * d), dict(ps[-1], d=-d)
        ps += [a, b]
        k = rng.randint(1, 3)
        w += [k, 2 * k]
        if not mean_free and rng.random() < .5:
            w[-1] = 1
    return ps, w


def random_element(rng, base, m_left, ang, plane, quads):
    kinds = ['drift', 'bend'] if plane != 'xy' else ['drift']
    if plane in ('x', 'y') and quads and math.isclose(
            math.sin(ang * ANGLE[base]), 0, abs_tol=1e-9):
        kinds += ['quad', 'quad']
    if plane == 'y':
        kinds = [k for k in kinds if k != 'bend']
    kind = rng.choice(kinds)
    if kind == 'bend' and m_left == 0:
        kind = 'drift'
    if kind == 'drift':
        n = rng.choice([0, 1, 2, 3])
        return {'kind': 'drift', 'len': rng.randint(1, 2) * max(n, 1)}, n
    if kind == 'bend':
        m = rng.randint(1, min(m_left, 3))
        n = rng.choice([0, 1, m])
        return {'kind': 'bend', 'sgn': rng.choice([-1, 1]),
                'rho': rng.choice([1, 1, 2]) if base == '345' else rng.choice([1, 2]),
                'base': base, 'm': m}, n
    qb = rng.choice(quads)
    m = rng.randint(1, 2 if qb != 'quarter' else 4)
    n = rng.choice([0, 1, m])
    focus = qb != 'ln2'
    sgn = 1 if (plane == 'x') == focus else -1
    return {'kind': 'quad', 'sgn': sgn, 'k': rng.choice([1, 2]), 'base': qb,
            'm': m}, n


def length(el):
    if el['kind'] in ('drift', 'sext'):
        return float(el['len'])
    if el['kind'] == 'bend':
        return el['rho'] * el['m'] * ANGLE[el['base']]
    return el['m'] * ANGLE[el['base']] / el['k']


def build(rng, el, n, gamma, order, unit):
    L = length(el)
    kw = dict(gamma_ref=gamma, n_out=n or None, order=order)
    if el['kind'] == 'drift':
        if order == 1 and rng.random() < .2:
            return Sextupole(L, k2=rng.choice([3., -50.]), **kw)
        if rng.random() < .2:
            return Quadrupole(L, k1=0., **kw) if rng.random() < .5 else \
                Dipole(L, theta=0., **kw)
        return Drift(L, **kw)
    if el['kind'] == 'bend':
        th = el['sgn'] * el['m'] * ANGLE[el['base']]
        return Dipole(L, theta=th, **kw)
    if el['kind'] == 'quad':
        return Quadrupole(L, k1=el['sgn'] * float(el['k'])**2, **kw)
    return Sextupole(L, k2=12. * el['K'] / unit, **kw)


class MyElement(TMElement):
    """An element defined by the user."""

    def _print_element_properties(self):
        pass


def follow(rng, obj, bunches, b, el, k, way, p, unit, base, n, ev):
    """Tracks bunch b through the element, forward or backward."""
    init = rng.random() < .3
    before = [x.copy() for x in bunches]
    kw = {'backtrack': True} if way < 0 else {}
    outs, err = guarded(obj.track, bunches[b], out_initial=init,
                        show_progress_bar=False, **kw)
    if err:
        ev.append({'a': 'fail'})
        return err
    others = all(same_bunch(x, y) for i, (x, y) in
                 enumerate(zip(before, bunches)) if i != b)
    ev.append({
        'a': 'track', 'b': b + 1, 'el': el, 'n': k, 'init': init, 'dir': way,
        'outs': [observe(o, p, unit, base, n) for o in outs],
        'final': observe(bunches[b], p, unit, base, n),
        'lastfinal': bool(others and len(outs) > 0
                          and same_bunch(outs[-1], bunches[b]))})


def exact_trace(rng, name, second, back=False):
    base = rng.choice(['quarter', '345'])
    plane = rng.choice(['x', 'x', 'x', 'y', 'xy'])
    yoff = plane == 'x' and rng.random() < .4
    unit = 1e-4 if second else 1e-9
    nb = rng.choice([1, 2, 2])
    moms = [rng.choice(MOMENTA) for _ in range(nb)]
    starts, bunches = [], []
    mean_free = rng.random() < .6      # use the mean energy of the bunch
    for num, den, e in moms:
        if second:
            ps = [dict(x=0, u=0, y=0, v=0, l=0, d=0, known=False)]
            for _ in range(4):
                ps.append({k: rng.randint(-3, 3) for k in 'xuyv'}
                          | {'l': 0, 'd': 0, 'known': False})
            w = [rng.randint(1, 4) for _ in ps]
        else:
            ps, w = particles(rng, mean_free, plane, yoff)
        starts.append(ps)
        bunches.append(make_bunch(ps, w, num / den, unit))
    n = 125 if base == '345' else 1
    # plan of elements (bends and quadrupoles use up digits)
    left = {b: 3 if base == '345' else 9 for b in range(nb)}
    quads = ['quarter', '345', 'ln2'] if base == 'quarter' else ['quarter']
    if yoff:
        quads = []
    usedq = {b: list(quads) for b in range(nb)}
    rhos = {b: 2 for b in range(nb)}
    ang = {b: 0 for b in range(nb)}
    shared, ev, err, sext = [], [], None, False
    undo = None                 # the element to go back through
    for _ in range(rng.randint(3, 9) if back else rng.randint(2, 6)):
        if undo is not None:
            b, el, k, obj = undo
            undo = None
            num, den, e = moms[b]
            err = follow(rng, obj, bunches, b, el, k, -1, num / den, unit, base, n, ev)
            if err:
                break
            if el['kind'] == 'bend':
                ang[b] -= el['sgn'] * el['m']
                left[b] -= el['m'] if base == '345' else 0
            continue
        b = rng.randrange(nb)
        num, den, e = moms[b]
        reuse = [s for s in shared if s[3] is None and not second
                 and s[4] == b or (s[3] is None and s[0]['kind'] == 'drift')]
        if second:
            if not sext:
                el, k = {'kind': 'sext', 'len': rng.randint(1, 2),
                         'K': rng.choice([-2, -1, 1, 2]) * 2}, rng.choice([0, 1])
                sext = True
                if nb > 1:
                    b = 0
                    num, den, e = moms[0]
            else:
                k = rng.choice([0, 1, 2])
                el = {'kind': 'drift', 'len': 2}
                if rng.random() < .5:
                    break
        else:
            el, k = random_element(rng, base, left[b], ang[b], plane, usedq[b])
        gamma = None if mean_free else math.sqrt(1 + (num / den)**2)
        order = 2 if second else 1
        pick = None
        if el['kind'] == 'drift' and gamma is None and reuse and rng.random() < .5:
            pick = rng.choice([s for s in reuse if s[0]['kind'] == 'drift'] or [None])
        if pick is not None and pick[0]['kind'] == 'drift':
            el, k, obj = pick[0], pick[1], pick[2]
        else:
            if el['kind'] == 'bend':
                if el['rho'] == 2:
                    if rhos[b] == 0 or el['m'] > left[b]:
                        el['rho'] = 1
                    rhos[b] -= el['rho'] == 2
            el['um'] = int(round(length(el) * 1e6))
            if rng.random() < .15 and el['kind'] != 'sext':
                th = el['sgn'] * el['m'] * ANGLE[el['base']] \
                    if el['kind'] == 'bend' else 0.
                k1 = el['sgn'] * float(el['k'])**2 if el['kind'] == 'quad' else 0.
                obj = MyElement(length(el), th, k1, 0., gamma, False, k or None,
                                order)
            else:
                obj = build(rng, el, k, gamma, order, unit)
            shared.append((el, k, obj, gamma, b))
        if el['kind'] == 'bend':
            left[b] -= el['m'] if base == '345' else 0
            ang[b] += el['sgn'] * el['m']
        if el['kind'] == 'quad' and el['base'] != 'quarter':
            usedq[b] = [q for q in usedq[b] if q == 'quarter']
        err = follow(rng, obj, bunches, b, el, k, 1, num / den, unit, base, n, ev)
        if err:
            break
        if back and not second and rng.random() < .6 and (
                el['kind'] == 'drift' or el['kind'] == 'quad' and el['base'] == 'quarter'
                or el['kind'] == 'bend' and (base == 'quarter' or el['m'] <= left[b])):
            undo = b, el, k, obj
    cfg = {'base': base, 'n': n, 'p': [[a, b] for a, b, c in moms],
           'e': [c for a, b, c in moms], 'start': starts}
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err,
            'scenario': {'mean': mean_free, 'plane': plane, 'unit': unit}}


# -- arbitrary parameters ------------------------------------------------------
def rand_bunch(g, scale, gamma=None):
    n = 6
    gamma = gamma or 10**g.uniform(.3, 4)
    p = math.sqrt(gamma**2 - 1)
    a = g.normal(size=(6, n)) * scale
    ga = gamma + a[5] * p
    px, py = a[1] * p, a[3] * p
    w = g.uniform(1, 5, n)
    return ParticleBunch(w, a[0], a[2], a[4], px, py,
                         np.sqrt(ga**2 - 1 - px**2 - py**2)), gamma


def coords(b, gamma):
    p = math.sqrt(gamma**2 - 1)
    f = frame(b)
    return np.array([f[0], f[1] / p, f[2], f[3] / p, f[4], (f[6] - gamma) / p])


def lab(b):
    return np.array([b.x, b.px / b.pz, b.y, b.py / b.pz, b.xi])


def deviation(x, y, scale):
    d = np.max(np.abs(np.asarray(x) - np.asarray(y))) / scale
    return int(min(d * 1e9, 2**30)) if np.isfinite(d) else 2**30


def rand_params(g, rng, kind=None):
    kind = kind or rng.choice(['drift', 'dipole', 'quad', 'combined'])
    L = g.uniform(.05, 1.5)
    th = g.uniform(-.7, .7) if kind in ('dipole', 'combined') else 0.
    k1 = g.uniform(-6, 6) if kind in ('quad', 'combined') else 0.
    return L, th, k1


def element(par, gamma, order, n=None, frac=1.):
    L, th, k1 = par
    return MyElement(L * frac, th * frac, k1, 0., gamma, False, n, order)


def piece_laws(rng):
    g = np.random.default_rng(rng.randrange(2**31))
    scale = 1e-5
    b0, gamma = rand_bunch(g, scale)
    # start somewhere along a beamline
    for _ in range(rng.randint(0, 2)):
        element(rand_params(g, rng), gamma, 1).track(b0, show_progress_bar=False)
    par = rand_params(g, rng)
    n = rng.randint(2, 6)
    one, many, parts = b0.copy(), b0.copy(), b0.copy()
    ev = []

    def add(law, x, y, s=1e-5, m=2000):
        ev.append({'a': 'law', 'law': law, 'dev': deviation(x, y, s), 'max': m})
    element(par, gamma, 1).track(one, show_progress_bar=False)
    outs = element(par, gamma, 1, n=n).track(many, show_progress_bar=False)
    add('P21.pieces', lab(one), lab(many))
    add('P21.distance', one.prop_distance, b0.prop_distance + par[0], 1.)
    add('P21.distance', many.prop_distance, b0.prop_distance + par[0], 1.)
    ev.append({'a': 'law', 'law': 'P21.count', 'dev': abs(len(outs) - n), 'max': 0})
    for k in range(min(n, len(outs))):
        element(par, gamma, 1, frac=1 / n).track(parts, show_progress_bar=False)
        add('P21.pieces', lab(parts), lab(outs[k]))
        add('P21.distance', outs[k].prop_distance,
            b0.prop_distance + par[0] * (k + 1) / n, 1.)
    # the number of outputs does not change the reference
    for o in (1, 2):
        x, y = b0.copy(), b0.copy()
        element(par, gamma, o).track(x, show_progress_bar=False)
        element(par, gamma, o, n=n).track(y, show_progress_bar=False)
        add('P22.reference', [x.theta_ref, x.x_ref], [y.theta_ref, y.x_ref], 1., 1)
    return ev


def reference_laws(rng):
    """The particle on the reference orbit follows the geometry."""
    g = np.random.default_rng(rng.randrange(2**31))
    gamma = 10**g.uniform(.3, 4)
    p = math.sqrt(gamma**2 - 1)
    # a symmetric pair of particles around the reference and one on it
    e = 1e-9
    one = np.ones(3)
    b = ParticleBunch(one, np.array([0, e, -e]), one * 0, one * 0, one * 0,
                      one * 0, one * p)
    th, x = 0., 0.
    ev = []
    order = rng.choice([1, 2])
    line = [rand_params(g, rng) for _ in range(rng.randint(2, 6))]
    chicane = rng.random() < .4
    if chicane:
        t, L, D, M = g.uniform(.02, .5), g.uniform(.1, 1), g.uniform(.1, 2), g.uniform(.1, 2)
        line = [(L, t, 0.), (D, 0., 0.), (L, -t, 0.), (M, 0., 0.), (L, -t, 0.),
                (D, 0., 0.), (L, t, 0.)]
    els = [element(par, rng.choice([gamma, None]), order, n=rng.choice([None, 1, 3]))
           for par in line]
    if rng.random() < .3:
        for par in line:
            L, a, _ = par
            x += L * math.sin(th) if a == 0 else L / a * (math.cos(th) - math.cos(th + a))
            th += a
        Beamline(els).track(b, show_progress_bar=False)
    else:
        for par, el in zip(line, els):
            L, a, _ = par
            s = np.linspace(0, 1, 4)[1:]
            outs = el.track(b, show_progress_bar=False)
            if el.n_out == 3 and len(outs) == 3:
                for o, f in zip(outs, s):
                    t = th + a * f
                    xx = x + (L * f * math.sin(th) if a == 0 else
                              L / a * (math.cos(th) - math.cos(t)))
                    ev.append({'a': 'law', 'law': 'P22.stays', 'max': 1,
                               'dev': deviation(
                                   [o.x[0], math.atan2(o.px[0], o.pz[0])],
                                   [xx, math.atan2(math.sin(t), math.cos(t))], 1.)})
            x += L * math.sin(th) if a == 0 else L / a * (math.cos(th) - math.cos(th + a))
            th += a
    want = [x, math.atan2(math.sin(th), math.cos(th)), x, th]
    got = [b.x[0], math.atan2(b.px[0], b.pz[0]), b.x_ref, b.theta_ref]
    ev.append({'a': 'law', 'law': 'P22.stays', 'dev': deviation(got, want, 1.),
               'max': 3})
    g_end = math.sqrt(1 + b.px[0]**2 + b.py[0]**2 + b.pz[0]**2)
    ev.append({'a': 'law', 'law': 'P22.stays', 'max': 5,
               'dev': deviation([g_end / gamma, b.y[0], b.xi[0]], [1, 0, 0], 1.)})
    if chicane:
        ev.append({'a': 'law', 'law': 'P22.chicane', 'max': 3,
                   'dev': deviation([b.x[0], b.px[0] / p], [0., 0.], 1.)})
    return ev


def everything(b):
    return np.concatenate([b.x, b.px / b.pz, b.y, b.py / b.pz, b.xi,
                           np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2) / np.mean(b.pz)])


def back_laws(rng):
    """Going back through elements undoes them."""
    g = np.random.default_rng(rng.randrange(2**31))
    gamma = 10**g.uniform(.3, 4)
    line = []
    for _ in range(rng.randint(1, 4)):
        L, th, k1 = rand_params(g, rng)
        line.append((L, th, k1, rng.choice([0., g.uniform(-30, 30)])))
    named = rng.choice([True, False])
    ref = gamma if rng.random() < .7 else None
    seed = rng.randrange(2**31)
    nout = [rng.choice([None, 1, 2, 5]) for _ in line]
    ev = []

    def there_and_back(scale, order):
        b0, _ = rand_bunch(np.random.default_rng(seed), scale, gamma)
        b = b0.copy()
        b.prop_distance = b0.prop_distance = 3.25
        els, states = [], []
        for (L, th, k1, k2), n in zip(line, nout):
            el = MyElement(L, th, k1, k2, ref, False, n, order)
            if named and th == k2 == 0.:
                el = Quadrupole(L, k1=k1, gamma_ref=ref, n_out=n, order=order) if k1 else \
                    Drift(L, gamma_ref=ref, n_out=n, order=order)
            states.append(b.copy())
            el.track(b, show_progress_bar=False)
            els.append(el)
        d = 0.
        for el, s in zip(els[::-1], states[::-1]):
            outs = el.track(b, backtrack=True, show_progress_bar=False)
            d = max(d, float(np.max(np.abs(everything(b) - everything(s)))))
            ev.append({'a': 'law', 'law': 'P34.distance', 'max': 10, 'dev': deviation(
                b.prop_distance, s.prop_distance, 1.)})
            ev.append({'a': 'law', 'law': 'P34.reference', 'max': 10, 'dev': deviation(
                [b.x_ref, b.theta_ref], [s.x_ref, s.theta_ref], 1.)})
            for i, o in enumerate(outs):
                ev.append({'a': 'law', 'law': 'P34.distance', 'max': 10, 'dev': deviation(
                    o.prop_distance, s.prop_distance + el.length * (1 - (i + 1) / len(outs)),
                    1.)})
        return d
    d = there_and_back(1e-5, 1)
    ev.append({'a': 'law', 'law': 'P34.undone', 'dev': deviation(d, 0., 1e-5), 'max': 10**5})
    d = [there_and_back(s, 2) for s in (4e-5, 1e-5)]
    # only terms of third order are left
    ev.append({'a': 'law', 'law': 'P34.undone', 'max': 10**9,
               'dev': deviation(d[1], 0., max(d[0] / 30, 1e-11))})
    return ev


def stamp_laws(rng):
    """The position of outputs in the beamline goes back, too."""
    import glob
    import shutil
    import tempfile
    import h5py
    from wake_t.diagnostics import OpenPMDDiagnostics
    g = np.random.default_rng(rng.randrange(2**31))
    b, gamma = rand_bunch(g, 1e-5)
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    ev, want, pos = [], [], 0.
    try:
        diag = OpenPMDDiagnostics(write_dir=d)
        done = []
        for _ in range(rng.randint(2, 5)):
            if done and rng.random() < .6:
                el, way = done.pop(), -1
            else:
                n = rng.choice([1, 2, 3])
                el, way = element(rand_params(g, rng), gamma, rng.choice([1, 2]), n=n), 1
                done.append(el)
            kw = {'backtrack': True} if way < 0 else {}
            el.track(b, opmd_diag=diag, show_progress_bar=False, **kw)
            want += [pos + way * el.length * (k + 1) / el.n_out for k in range(el.n_out)]
            pos += way * el.length
        got = []
        for f in sorted(glob.glob(d + '/**/*.h5', recursive=True)):
            with h5py.File(f, 'r') as h:
                a = list(h['data'].values())[0].attrs
                got.append(float(a['time']) * float(a['timeUnitSI']) * 299792458.)
    finally:
        shutil.rmtree(d)
    ev.append({'a': 'law', 'law': 'P34.outputs', 'dev': abs(len(got) - len(want)), 'max': 0})
    if len(got) == len(want):
        ev.append({'a': 'law', 'law': 'P34.outputs', 'dev': deviation(got, want, 1.), 'max': 10})
    return ev


J = np.zeros((6, 6))
for _i, _s in ((0, 1), (2, 1), (4, -1)):
    J[_i, _i + 1], J[_i + 1, _i] = _s, -_s


def map_laws(rng):
    g = np.random.default_rng(rng.randrange(2**31))
    gamma = 10**g.uniform(.3, 3)
    p = math.sqrt(gamma**2 - 1)
    par = rand_params(g, rng)
    eps = 1e-5
    ev = []

    def unit_bunch(amp, order, pre=None):
        a = np.zeros((6, 7))
        for i in range(6):
            a[i, i + 1] = amp
        ga = gamma + a[5] * p
        px, py = a[1] * p, a[3] * p
        return ParticleBunch(np.ones(7), a[0], a[2], -a[4], px, py,
                             np.sqrt(ga**2 - 1 - px**2 - py**2))
    b = unit_bunch(eps, 1)
    element(par, gamma, 1, n=rng.choice([None, 2])).track(b, show_progress_bar=False)
    c = coords(b, gamma)
    c[4] *= -1
    M = (c[:, 1:] - c[:, :1]) / eps
    size = max(1., np.max(np.abs(M)))**2
    ev.append({'a': 'law', 'law': 'P23.symplectic', 'max': 20000,
               'dev': deviation(M.T @ J @ M, J, size)})
    ev.append({'a': 'law', 'law': 'P23.energy', 'max': 1000,
               'dev': deviation(M[5], [0, 0, 0, 0, 0, 1], 1.)})
    # to first order, the second-order map is the same
    amp = 1e-6
    x, y = unit_bunch(amp, 1), unit_bunch(amp, 2)
    element(par, gamma, 1).track(x, show_progress_bar=False)
    element(par, gamma, 2).track(y, show_progress_bar=False)
    ev.append({'a': 'law', 'law': 'P23.map', 'max': 1000000,
               'dev': deviation(coords(x, gamma), coords(y, gamma), amp * size)})
    # matrix from the equations of motion
    L, th, k1 = par
    h = -th / L
    A = np.zeros((6, 6))
    be = p / gamma
    A[0, 1] = A[2, 3] = 1
    A[1, 0] = -(k1 + h * h)
    A[3, 2] = k1
    A[1, 5] = h / be
    A[4, 0] = h / be
    A[4, 5] = -1 / p**2
    from scipy.linalg import expm
    W = expm(A * L)
    ev.append({'a': 'law', 'law': 'P23.map', 'max': 20000,
               'dev': deviation(M, W, size)})
    # mean energy of the bunch as reference, whatever was tracked before
    order = rng.choice([1, 2])
    el, fresh = element(par, None, order), element(par, None, order)
    for _ in range(rng.randint(1, 3)):
        other, _g = rand_bunch(g, 1e-3)
        el.track(other, show_progress_bar=False)
    b1, g1 = rand_bunch(g, 1e-3)
    mean = np.average(np.sqrt(1 + b1.px**2 + b1.py**2 + b1.pz**2), weights=b1.w)
    b2, b3 = b1.copy(), b1.copy()
    el.track(b1, show_progress_bar=False)
    fresh.track(b2, show_progress_bar=False)
    element(par, mean, order).track(b3, show_progress_bar=False)
    ev.append({'a': 'law', 'law': 'P23.history', 'dev': deviation(lab(b1), lab(b2), 1e-3),
               'max': 0})
    ev.append({'a': 'law', 'law': 'P23.mean-energy', 'max': 1000,
               'dev': deviation(lab(b2), lab(b3), 1e-3)})
    return ev


def flow(L, h, k1, k2, gamma, v):
    """Motion in the magnets, from the Hamiltonian up to third order (s is the
    path of the reference; positions x, y, xi, momenta over the reference
    momentum and energy deviation over it)."""
    from scipy.integrate import solve_ivp
    be = math.sqrt(1 - 1 / gamma**2)

    def f(s, u):
        x, px, y, py, xi, d = u.reshape(6, -1)
        r = np.sqrt((1 / be + d)**2 - px**2 - py**2 - 1 / (be * gamma)**2)
        fx = h * r - h - h * h * x - k1 * x - k2 / 2 * (x * x - y * y) \
            - h * k1 * (x * x - y * y / 2)
        fy = k1 * y + k2 * x * y + h * k1 * x * y
        return np.array([(1 + h * x) * px / r, fx, (1 + h * x) * py / r, fy,
                         1 / be - (1 + h * x) * (1 / be + d) / r, 0 * d]).ravel()
    return solve_ivp(f, (0, L), np.ravel(v), rtol=1e-11, atol=1e-15,
                     method='DOP853').y[:, -1].reshape(6, -1)


def magnet(rng, g, kind):
    """An element, its parameters (L, theta, k1, k2) and its builder."""
    L = g.uniform(.05, 1.)
    th = k1 = k2 = 0.
    if kind in ('dipole', 'combined', 'flat', 'resonant'):
        th = g.uniform(.02, .6) * rng.choice([1, -1])
    if kind in ('quad', 'strong', 'combined'):
        k1 = g.uniform(.2, 5) * rng.choice([1, -1])
    if kind in ('sext', 'strong', 'combined', 'flat', 'resonant'):
        k2 = g.uniform(1, 20) * rng.choice([1, -1])
    if kind == 'combined':
        z = rng.choice(['', '', 'k1', 'k2'])
        k1, k2 = (0. if z == 'k1' else k1), (0. if z == 'k2' else k2)
    if kind == 'flat':
        k1 = -(th / L)**2
    if kind == 'resonant':
        k1 = -(th / L)**2 / 5
    own = rng.random() < .5

    def make(gamma, n=None, frac=1.):
        kw = dict(gamma_ref=gamma, n_out=n)
        if rng.random() < .5:
            kw['order'] = 2
        if kind == 'drift' and own:
            return Drift(L * frac, **kw)
        if kind == 'dipole' and own:
            return Dipole(L * frac, th * frac, **kw)
        if kind == 'quad' and own:
            return Quadrupole(L * frac, k1, **kw)
        if kind == 'sext' and own:
            return Sextupole(L * frac, k2, **kw)
        return MyElement(L * frac, th * frac, k1, k2, gamma, False, n,
                         kw.get('order', 2))
    return (L, th, k1, k2), make


def phase_bunch(a, gamma):
    """Bunch with the given coordinates in the frame of the reference."""
    p = math.sqrt(gamma**2 - 1)
    ga = gamma + a[5] * p
    px, py = a[1] * p, a[3] * p
    return ParticleBunch(np.ones(len(px)), a[0], a[2], a[4], px, py,
                         np.sqrt(ga**2 - 1 - px**2 - py**2))


KINDS = ['drift', 'dipole', 'quad', 'sext', 'strong', 'combined', 'combined',
         'flat', 'resonant']


def second_laws(rng, kind):
    g = np.random.default_rng(rng.randrange(2**31))
    gamma = 10**g.uniform(.3, 3)
    e = 3e-4
    par, make = magnet(rng, g, kind)
    # pairs of opposite deviations, in every combination of two coordinates
    dirs = []
    for i in range(6):
        for j in range(i + 1):
            v = np.zeros(6)
            v[i] += 1
            v[j] += 1 if i != j else 0
            dirs.append(v)
    dirs = np.array(dirs + [g.normal(size=6) for _ in range(3)]).T * e
    a = np.concatenate([np.zeros((6, 1)), dirs, -dirs], axis=1)
    m = dirs.shape[1]

    def even(c):
        return (c[:, 1:m + 1] + c[:, m + 1:] - 2 * c[:, :1]) / 2 / e**2

    ev = []

    def add(law, got, want, tol):
        size = max(1., float(np.max(np.abs(want))))
        ev.append({'a': 'law', 'law': law, 'max': int(tol * 1e9),
                   'dev': deviation(got, want, size)})
    L, th, k1, k2 = par
    h = -th / L
    n = rng.choice([None, None, 2, 3])
    b = phase_bunch(a, gamma)
    outs = make(gamma, n).track(b, show_progress_bar=False)
    stages = [(1., b)] + ([(f, o) for f, o in zip(np.arange(1, n + 1) / n, outs)]
                          if n else [])
    for f, o in stages:
        c = coords(o, gamma)
        add('P33.map', even(c), even(flow(L * f, h, k1, k2, gamma, a)), 2e-4)
        add('P33.energy', c[5], a[5], 1e-9)
    # two halves are the whole, to second order
    b2 = phase_bunch(a, gamma)
    half = make(gamma, frac=.5)
    for k in range(2):
        half.track(b2, show_progress_bar=False)
    add('P33.pieces', even(coords(b2, gamma)), even(coords(b, gamma)), 5e-4)
    return ev


def run(chk, pid):
    chk.model('MCOptics', 'MCOpticsBig.cfg' if THOROUGH else None, workers=2)
    rng = random.Random(SEED * 86028121 + 21)
    n = 500 if THOROUGH else 80
    traces = [exact_trace(rng, f'exact_{SEED}_{i}', False, pid == 'P34') for i in range(n)]
    if pid != 'P34':
        traces += [exact_trace(rng, f'second_{SEED}_{i}', True) for i in range(n // 4)]
    fn = {'P21': piece_laws, 'P22': reference_laws, 'P23': map_laws,
          'P34': lambda r: back_laws(r) if i % 8 else stamp_laws(r),
          'P33': lambda r: second_laws(r, KINDS[i % len(KINDS)])}[pid]
    for i in range(n):
        ev, err = guarded(fn, rng)
        traces.append({'id': f'law_{SEED}_{i}', 'ev': ev if not err else
                       [{'a': 'fail'}], 'error': err,
                       'cfg': {'base': 'quarter', 'n': 1, 'p': [], 'e': [],
                               'start': []}})
    chk.validate('TraceOptics', traces)
