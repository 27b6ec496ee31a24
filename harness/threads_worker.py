"""Runs the scenarios of threads_suite in one process and stores the results."""
import random
import sys
import traceback

import numpy as np
import scipy.constants as ct


def bunch(rng, n, qs=-ct.e, xi0=0., w=1.):
    from wake_t import ParticleBunch
    g = np.random.default_rng(rng.randrange(2**31))
    return ParticleBunch(
        np.full(n, w * 2e9 / n), g.normal(0, 4e-6, n), g.normal(0, 4e-6, n),
        g.normal(xi0, 5e-6, n), g.normal(0, .3, n), g.normal(0, .3, n),
        g.normal(400, 4, n), q_species=qs, name='b')


def stage(rng, model, n_part, **kw):
    import wake_t
    p = dict(length=40e-6, density=1e23, n_out=1, dt_bunch=10e-6 / ct.c,
             wakefield_model=model, r_max=50e-6, xi_min=-60e-6, xi_max=30e-6,
             n_r=20, n_xi=40, dz_fields=20e-6)
    p.update(kw)
    el = wake_t.PlasmaStage(**p)
    return el, [bunch(rng, n_part), bunch(rng, n_part // 2, ct.e, -30e-6)]


def scenarios(tier):
    """name -> function(n_particles) giving an element and bunches."""
    from wake_t import ActivePlasmaLens, GaussianPulse
    from wake_t.beamline_elements import FieldQuadrupole

    def fluid(shape, push):
        def f(rng, n):
            return stage(rng, 'cold_fluid_1d', n, p_shape=shape, bunch_pusher=push,
                         beam_wakefields=True)
        return f

    def qs(shape, push, laser, ppc=2):
        def f(rng, n):
            kw = {}
            if laser:
                kw = dict(laser=GaussianPulse(xi_c=15e-6, a_0=1.5, w_0=15e-6, tau=20e-15),
                          laser_evolution=True, laser_envelope_substeps=2)
            return stage(rng, 'quasistatic_2d', n, p_shape=shape, ppc=ppc,
                         plasma_pusher='ab5' if shape == 'linear' else 'rk4',
                         bunch_pusher=push, n_r=14, n_xi=24, dz_fields=20e-6, **kw)
        return f

    def lens(rng, n):
        return ActivePlasmaLens(1e-3, 2000., bunch_pusher='rk4', n_out=1), [bunch(rng, n)]

    def quad(rng, n):
        return FieldQuadrupole(1e-3, 500., n_out=1), [bunch(rng, n), bunch(rng, n, ct.e)]
    return {'fluid_linear': fluid('linear', 'boris'), 'fluid_cubic': fluid('cubic', 'rk4'),
            'qs_linear': qs('linear', 'rk4', True), 'qs_cubic': qs('cubic', 'boris', False),
            'lens': lens, 'quad': quad}


def main():
    out, seed, n, reps, tier = (sys.argv[1], int(sys.argv[2]), int(sys.argv[3]),
                                int(sys.argv[4]), sys.argv[5])
    sys.path.insert(0, '/repo')
    import numba
    res = {}
    names = []
    outside = min(2, numba.config.NUMBA_NUM_THREADS)
    for rep in range(reps):
        for k, (name, f) in enumerate(scenarios(tier).items()):
            key = f'{name}|{rep}'
            try:
                el, bs = f(random.Random(seed * 1000 + k), n)
                numba.set_num_threads(outside)
                before = numba.get_num_threads()
                el.track(bs if len(bs) > 1 else bs[0], show_progress_bar=False)
                res[key + '|set'] = np.array([before, numba.get_num_threads()])
                for i, b in enumerate(bs):
                    for q in ('x', 'y', 'xi', 'px', 'py', 'pz'):
                        res[f'{key}|{q}{i}'] = getattr(b, q)
                fld = getattr(el, 'fields', [])
                for j, w in enumerate(fld):
                    for q in ('e_z', 'e_r', 'b_t', 'rho'):
                        a = getattr(w, q, None)
                        if isinstance(a, np.ndarray) and a.size > 1:
                            res[f'{key}|{q}_{j}'] = a
                names.append(key)
            except Exception:
                res[key + '|error'] = np.array(traceback.format_exc())
    np.savez(out, **res)


if __name__ == '__main__':
    main()
