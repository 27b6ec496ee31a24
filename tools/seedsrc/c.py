exec(open(__file__.replace('c.py', 'a.py')).read().split('SEEDS')[0])
COMMON = COMMON.replace('import numpy as np', 'import os, shutil, tempfile\nimport numpy as np')
W = 'wake_t/'
SEEDS = [
 dict(id='inj_zero', property='P11',
  edits=[(W+'particles/particle_bunch.py', "if self.z_injection is not None:", "if self.z_injection:")],
  needs='an injection position of exactly zero and a bunch that starts behind it',
  breaks='the fields act on the bunch before it reaches the injection position',
  demo=COMMON + '''
class F(Field):
    n = 0
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        self.n += 1
f = F()
b = bunch(n=3, z_injection=0.)
b.xi -= 3.5e-3
FieldElement(10e-3, 1e-3/ct.c, fields=[f], n_out=1, push_bunches_before_diags=False).track(b, show_progress_bar=False)
check(f.n == 6, f.n)
'''),
 dict(id='subcycle_change', property='P18',
  edits=[(W+'physics_models/laser/laser_pulse.py', "if solver_params['dt'] != self.solver_params['dt']:", "if solver_params['dt'] * nt != self.solver_params['dt'] * self.solver_params['nt']:")],
  needs='a laser pulse taken from one stage to another with a different number of envelope sub-steps, the update period unchanged',
  breaks='the three-level scheme continues with a previous envelope that belongs to another step size',
  demo=COMMON + '''
from wake_t import GaussianPulse
def run(change):
    p = GaussianPulse(0., a_0=1., w_0=20e-6, tau=30e-15)
    k = dict(xi_min=-40e-6, xi_max=40e-6, r_max=80e-6, nz=80, nr=40, dt=1e-4/ct.c)
    chi = np.zeros((80, 40))
    p.set_envelope_solver_params(nt=1, **k); p.initialize_envelope()
    p.evolve(chi, 1e23); p.evolve(chi, 1e23)
    p.set_envelope_solver_params(nt=4, **k)
    if change: p.n_steps = 0
    p.evolve(chi, 1e23)
    return p.get_envelope().copy()
d = np.abs(run(False) - run(True)).max()
check(d < 1e-12, d)
'''),
 dict(id='flat_cep', property='P20',
  edits=[(W+'physics_models/laser/laser_pulse.py', "cep_phase_n = cep_phase + 2*n*np.pi/2", "cep_phase_n = (cep_phase + n*np.pi) * (1 + (n > 1))")],
  needs='a flattened pulse of order 2 or more with a carrier-envelope phase',
  breaks='the modes of a flattened pulse get different phases: its profile changes with the phase',
  demo=COMMON + '''
from wake_t.physics_models.laser.laser_pulse import FlattenedGaussianPulse
xi, r = np.meshgrid(np.linspace(-1e-5, 1e-5, 5), np.linspace(0, 4e-5, 9), indexing='ij')
f = lambda p: FlattenedGaussianPulse(0., a_0=1., w_0=2e-5, tau=3e-14, N=4, cep_phase=p).envelope_function(xi, r, 0.)
a, b = f(0.), f(.7)
check(np.allclose(b, a*np.exp(.7j)) or np.allclose(b, a*np.exp(-.7j)), np.abs(np.abs(a)-np.abs(b)).max())
'''),
 dict(id='bz_frozen', property='P13',
  edits=[(W+'fields/analytical_field.py', "self.__b_z(x, y, z, t, bz, self.constants)", "self.__b_z(x, y, z, 0., bz, self.constants)")],
  needs='an analytical longitudinal magnetic field that depends on time',
  breaks='the field is evaluated as it was at the start',
  demo=COMMON + '''
from wake_t.fields.analytical_field import AnalyticalField
def bz(x, y, z, t, out, c):
    out += c[0] * t
f = AnalyticalField(b_z=bz, constants=[3.])
a = [np.zeros(4) for _ in range(9)]
f.gather(a[0], a[1], a[2], 2., *a[3:])
check(np.allclose(a[8], 6.), a[8])
'''),
 dict(id='positron_step', property='P27',
  edits=[(W+'beamline_elements/plasma_stage.py', "w_x = np.sqrt(np.abs(q_over_m*ct.c * max_kx/min_gamma))", "w_x = np.sqrt(np.maximum(-q_over_m*ct.c * max_kx/min_gamma, 1e-30))")],
  needs='positrons with an automatic time step in a plasma stage',
  breaks='the automatic step does not resolve the betatron motion of positively charged particles',
  demo=COMMON + '''
from wake_t import PlasmaStage
st = PlasmaStage(1e-2, 1e23, 'focusing_blowout', n_out=1)
b = bunch(4, q_species=ct.e)
e = bunch(4)
d = st._get_optimized_dt(b), st._get_optimized_dt(e)
check(abs(d[0]/d[1] - 1) < 1e-9, d)
'''),
 dict(id='deposit_corner', property='P30',
  edits=[(W+'physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py', "deposition_array[iz_cell + 1, ir_cell + 3] += zsc_1 * rsc_3 * w_i", "deposition_array[iz_cell + 1, ir_cell - 3] += zsc_1 * rsc_3 * w_i")],
  needs='the quasistatic model with cubic plasma particles',
  breaks='a part of the plasma charge is deposited at the wrong radius: the undisturbed plasma is not quiet',
  demo=COMMON + '''
from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.deposition import deposit_plasma_particles
g = np.zeros((10, 14))
dep = deposit_plasma_particles
r = np.linspace(2.6, 6.6, 9)
dep(2., r, np.ones(9), 0., .5, 6, 10, 1., 1., g, p_shape='cubic')
m = (g.sum(0) * (np.arange(14) - 2 + .5)).sum()/g.sum()
check(abs(g.sum() - 9) < 1e-9 and abs(m - r.mean()) < 1e-6, (g.sum(), m, r.mean()))
'''),
 dict(id='lens_no_density', property='P35',
  edits=[(W+'beamline_elements/active_plasma_lens.py', "            if wakefields:\n                raise", "            if wakefields and wakefield_model != 'focusing_blowout':\n                raise")],
  needs='an active plasma lens with wakefields in the focusing blowout model but no density',
  breaks='a lens without density is built and tracks without the wakefields that were asked for',
  demo=COMMON + '''
from wake_t import ActivePlasmaLens
try:
    ActivePlasmaLens(1e-2, 100., wakefields=True, wakefield_model='focusing_blowout')
except ValueError:
    sys.exit(0)
check(False, 'accepted')
'''),
]
