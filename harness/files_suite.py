"""Saving and reading bunches (Files.tla)."""
import os
import random
import shutil

import h5py
import numpy as np
import scipy.constants as ct

from vlib import OFF, SCRATCH, SEED, THOROUGH, guarded
from wake_t import ParticleBunch
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.utilities.bunch_generation import get_from_file
from wake_t.utilities.bunch_saving import save_bunch_to_file

SPECIES = {'electron': (-ct.e, ct.m_e), 'positron': (ct.e, ct.m_e),
           'proton': (ct.e, ct.m_p), 'ion': (3 * ct.e, 7 * ct.m_p)}
COLS = ('x', 'y', 'z', 'px', 'py', 'pz', 'w')


def code(v, tol=1e-3):
    if not np.isfinite(v) or abs(v) > 2**30:
        return OFF
    n = int(round(v))
    return n if abs(v - n) <= tol else OFF


def bunch_of(b, u):
    a = {k: np.array([p[k] for p in b['ps']], dtype=float) for k in COLS}
    q, m = SPECIES[b['sp']]
    out = ParticleBunch(a['w'] * u['w'], a['x'] * u['x'], a['y'] * u['x'], a['z'] * u['x'],
                        a['px'] * u['p'], a['py'] * u['p'], a['pz'] * u['p'],
                        name=b['name'], q_species=q, m_species=m)
    out.prop_distance = b['prop']
    return out


def state(b):
    return [np.array(getattr(b, k)) for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'w')] + \
        [b.prop_distance, b.q_species, b.m_species, b.name, b.x_ref, b.theta_ref]


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def species_of(b):
    for k, (q, m) in SPECIES.items():
        if np.isclose(b.q_species, q, rtol=1e-9, atol=0) and \
                np.isclose(b.m_species, m, rtol=1e-9, atol=0):
            return k
    return 'unknown'


def observe(b, W, n, u, old_names):
    # everything multiplied by the total weight (weights by their number)
    sx, sp, sw = W / u['x'], W / u['p'], n / u['w']
    ps = [{'x': code(b.x[i] * sx), 'y': code(b.y[i] * sx), 'xi': code(b.xi[i] * sx),
           'px': code(b.px[i] * sp), 'py': code(b.py[i] * sp), 'pz': code(b.pz[i] * sp),
           'w': code(b.w[i] * sw)} for i in range(len(b.x))]
    return {'ps': ps, 'sp': species_of(b), 'name': str(b.name),
            'fresh': isinstance(b.name, str) and b.name not in old_names,
            'prop': code(b.prop_distance * sx)}


def file_trace(rng, name):
    d = os.path.join(SCRATCH, f'files_{rng.randrange(10**9)}')
    os.makedirs(d)
    u = {'x': rng.choice([1e-6, 3.1e-5]), 'p': rng.choice([1., .37, 100.]),
         'w': rng.choice([1., 6.2e6])}
    fmts, paths = [], []
    for p in range(rng.randint(2, 4)):
        f = rng.choice(['openpmd', 'openpmd', 'astra', 'csrtrack', 'diag'])
        ext = {'openpmd': '.h5', 'csrtrack': '.fmt1'}.get(f, '')
        given = os.path.join(d, f'file{p}' + rng.choice(['', '.bunch']))
        full = given + ext
        if rng.random() < .5:
            given = full
        fmts.append(f)
        paths.append((given, full))
    bunches = []
    names = []
    for k in range(rng.randint(1, 3)):
        n = rng.randint(1, 5)
        ps = [{c: rng.randint(-40, 40) for c in COLS} for _ in range(n)]
        for q in ps:
            q['w'] = rng.randint(1, 4)
            q['pz'] = rng.randint(100, 500)
        sp = rng.choice(['electron'] * 4 + ['positron', 'positron', 'proton', 'ion'])
        bunches.append({'sp': sp, 'name': rng.choice(['drive', 'b']) + str(k), 'ps': ps,
                        'prop': rng.choice([0., 1.25])})
        names.append(bunches[-1]['name'])
    ev, err = [], None
    content = {}
    objs = [bunch_of(b, u) for b in bunches]
    seen_names = set(names)
    for _ in range(rng.randint(4, 10)):
        p = rng.randrange(len(paths))
        given, full = paths[p]
        f = fmts[p]
        r = rng.random()
        if p not in content or r < .35:
            if f == 'diag':
                bs = rng.sample(range(len(bunches)), rng.randint(1, len(bunches)))
                off = rng.choice([0, 17, 400])
                before = [state(o) for o in objs]
                sub = os.path.join(d, f'diag{p}_{len(ev)}')

                def write():
                    o = OpenPMDDiagnostics(write_dir=sub)
                    k = rng.choice([0, 2])
                    for _ in range(k):
                        o.write_diagnostics(0., 1e-15, [objs[0]])
                    part = rng.choice([0, off])
                    o.increase_z_pos(part * u['x'])
                    o.write_diagnostics((off - part) * u['x'] / ct.c, 1e-15,
                                        [objs[i] for i in bs])
                    return os.path.join(sub, 'hdf5', f'data{k:08d}.h5')
                path, err = guarded(write)
                if err:
                    ev.append({'a': 'fail'})
                    break
                paths[p] = (path, path)
                content[p] = [(bunches[i]['name'], i) for i in bs]
                ev.append({'a': 'diag', 'bs': [i + 1 for i in bs], 'p': p + 1, 'off': off,
                           'ok': True, 'same': all(same(x, state(o)) for x, o
                                                   in zip(before, objs))})
                continue
            # other species are outside of what these formats can hold
            able = [i for i, x in enumerate(bunches) if f == 'openpmd'
                    or x['sp'] == 'electron' or f == 'astra' and x['sp'] == 'positron']
            if not able:
                continue
            b = rng.choice(able)
            fmt = f if rng.random() < .93 else rng.choice(['hdf5', 'ASTRA', 'elegant', ''])
            sp = '' if rng.random() < .6 else rng.choice(['spec_a', 'beam'])
            before = [state(o) for o in objs]
            kw = {'species_name': sp} if sp else {}
            _, e = guarded(save_bunch_to_file, objs[b], fmt, given, **kw)
            if not e and fmt == f:
                content[p] = [(sp or bunches[b]['name'], b)]
            elif fmt == f and rng.random() < .9 and not e:
                content.pop(p, None)
            ev.append({'a': 'save', 'b': b + 1, 'fmt': fmt, 'p': p + 1, 'species': sp,
                       'ok': not e, 'same': all(same(x, state(o)) for x, o
                                                in zip(before, objs))})
            if e:
                err = e
            continue
        fmt = 'openpmd' if f == 'diag' else f
        if rng.random() < .07:
            fmt = rng.choice(['h5', 'gpt', 'OpenPMD'])
        names_in = [c[0] for c in content[p]]
        sp = ''
        if f in ('openpmd', 'diag') and rng.random() < .5:
            sp = rng.choice(names_in + names_in + ['missing'])
        nm = '' if rng.random() < .6 else rng.choice(['mine', 'witness', *names_in])
        keep = rng.random() < .5
        kw = {}
        if sp:
            kw['species_name'] = sp
        if nm:
            kw['name'] = nm
        if keep or rng.random() < .3:
            kw['preserve_prop_dist'] = keep
        got, e = guarded(get_from_file, full, fmt, **kw)
        x = {'a': 'read', 'p': p + 1, 'fmt': fmt, 'name': nm, 'species': sp, 'keep': keep,
             'ok': not e}
        if not e:
            pick = [b for s, b in content[p] if s == sp] or [content[p][0][1]]
            ps = bunches[pick[0]]['ps']
            x['got'] = observe(got, sum(q['w'] for q in ps), len(ps), u, seen_names)
            seen_names.add(got.name)
        else:
            err = e
        ev.append(x)
    # plain dump of the analysis module
    try:
        from wake_t.diagnostics.bunch_analysis import save_bunch_to_file as dump
    except ImportError:
        dump = None
    if dump is not None:
        b = objs[0]
        sub = os.path.join(d, 'a', 'b')
        _, e = guarded(dump, b, sub, 'raw')
        if e:
            ev.append({'a': 'fail'})
            err = e
        else:
            with h5py.File(os.path.join(sub, 'raw.h5'), 'r') as h:
                ok = all(np.array_equal(h[k][()], getattr(b, k))
                         for k in ('x', 'y', 'xi', 'px', 'py', 'pz', 'q')) \
                    and h.attrs['prop_dist'] == b.prop_distance
            ev.append({'a': 'raw', 'same': bool(ok)})
    shutil.rmtree(d, ignore_errors=True)
    cfg = {'paths': len(paths), 'bunches': bunches}
    for b in cfg['bunches']:
        b.pop('prop', None)
    return {'id': name, 'cfg': cfg, 'ev': ev, 'error': err}


def run(chk, pid):
    chk.model('MCFiles', 'MCFilesBig.cfg' if THOROUGH else None, workers=2)
    rng = random.Random(SEED * 67867967 + 25)
    n = 600 if THOROUGH else 80
    chk.validate('TraceFiles', [file_trace(rng, f'file_{SEED}_{i}') for i in range(n)])
