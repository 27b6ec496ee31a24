exec(open(__file__.replace('b.py', 'a.py')).read().split('SEEDS')[0])
COMMON = COMMON.replace('import numpy as np', 'import os, shutil, tempfile\nimport numpy as np')
W = 'wake_t/'
SEEDS = [
 dict(id='line_unique', property='P06',
  edits=[(W+'beamline_elements/beamline.py', "        for element in self.elements:\n            bunch_list", "        for element in dict.fromkeys(self.elements):\n            bunch_list")],
  needs='the same element object more than once in a beamline',
  breaks='repeated elements are tracked only once',
  demo=COMMON + '''
from wake_t import Beamline, Drift
d = Drift(0.1, n_out=1)
b = bunch()
out = Beamline([d, d]).track(b, show_progress_bar=False)
check(abs(b.prop_distance - 0.2) < 1e-12 and len(out) == 2, (b.prop_distance, len(out)))
'''),
 dict(id='grid_local_pos', property='P08',
  edits=[(W+'fields/rz_wakefield.py', "[0., global_time*ct.c+self.xi_min]", "[0., self.t*ct.c+self.xi_min]")],
  needs='a plasma stage that is not the first element written through the diagnostics',
  breaks='the grid in the files is placed relative to the stage instead of in the laboratory',
  demo=COMMON + '''
import h5py, glob
from wake_t import PlasmaStage, Drift, Beamline
from wake_t.diagnostics import OpenPMDDiagnostics
d = tempfile.mkdtemp()
try:
    st = PlasmaStage(1e-4, 1e23, 'cold_fluid_1d', n_out=1, dt_bunch=5e-5/ct.c, r_max=50e-6, xi_min=-60e-6, xi_max=60e-6, n_r=8, n_xi=12, dz_fields=5e-5)
    Beamline([FieldElement(1e-3, 1e-3/ct.c, n_out=1), st]).track(bunch(), opmd_diag=OpenPMDDiagnostics(write_dir=d), show_progress_bar=False)
    f = sorted(glob.glob(d + '/hdf5/*.h5'))[-1]
    with h5py.File(f) as h:
        it = h['data'][list(h['data'])[0]]
        off = it['fields/rho'].attrs['gridGlobalOffset']
    check(abs(off[1] - (1.1e-3 - 60e-6)) < 1e-9, off)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
 dict(id='inj_forget', property='P09',
  edits=[(W+'particles/particle_bunch.py', "                fields = []\n", "                fields = []\n            else:\n                self.z_injection = None\n")],
  needs='a bunch with an injection position that it has passed',
  breaks='tracking erases the injection position of the bunch',
  demo=COMMON + '''
b = bunch(1, z_injection=2e-3)
FieldElement(10e-3, 1e-3/ct.c, n_out=1).track(b, show_progress_bar=False)
check(b.z_injection == 2e-3, b.z_injection)
'''),
 dict(id='stale_bz', property='P13',
  edits=[(W+'fields/gather.py', "        by[i] = 0.\n        bz[i] = 0.\n", "        by[i] = 0.\n")],
  needs='an element with a longitudinal magnetic field followed by any other push of the same bunch',
  breaks='the longitudinal magnetic field adds up from step to step and leaks into later elements',
  demo=COMMON + '''
class S(Field):
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz): bz += 1.
class Z(Field):
    def _gather(self, *a): pass
b = bunch(2); b.px[:] = 5.
FieldElement(1e-3, 1e-3/ct.c, fields=[S()], n_out=1).track(b, show_progress_bar=False)
px, py = b.px.copy(), b.py.copy()
FieldElement(1e-3, 1e-3/ct.c, fields=[Z()], n_out=1).track(b, show_progress_bar=False)
check(np.array_equal(px, b.px) and np.array_equal(py, b.py), (px - b.px, py - b.py))
'''),
 dict(id='rk4_frozen_xi', property='P14',
  edits=[(W+'particles/push/runge_kutta_4.py', "            update_coord(xi, bunch.xi, dt, k_xi, fac1)", "            update_coord(xi, bunch.xi, dt, k_xi, 0.)")],
  needs='slow particles in a field that varies along xi, pushed with rk4',
  breaks='the intermediate stages see the field at the initial xi: no longer fourth order',
  demo=COMMON + '''
class G(Field):
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz): ez += -1e12 * z
def end(n):
    b = bunch(1, 1.); b.xi[:] = -1e-3
    FieldElement(5e-4, 5e-4/ct.c/n*(1+1e-12), 'rk4', fields=[G()], n_out=1).track(b, show_progress_bar=False)
    return b.pz[0]
ref = end(400)
e1, e2 = abs(end(10) - ref), abs(end(20) - ref)
check(e2 < e1 / 8, (e1, e2))
'''),
 dict(id='laser_next_dens', property='P18',
  edits=[(W+'fields/rz_wakefield.py', "self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)", "self.laser.evolve(\n                    self.chi[2:-2, 2:-2], self.density_function(self.t*ct.c))")],
  needs='an evolving laser pulse in a plasma whose density changes along the stage',
  breaks='the pulse is advanced with the density of the next position while the susceptibility is that of the previous one',
  demo=COMMON + '''
from wake_t import PlasmaStage, GaussianPulse
import wake_t.physics_models.laser.laser_pulse as lp
seen = []
old = lp.LaserPulse.evolve
def evolve(self, chi, n_p):
    seen.append(n_p); return old(self, chi, n_p)
lp.LaserPulse.evolve = evolve
dens = lambda z: 1e23 * (1 + z / 1e-4)
PlasmaStage(1e-4, dens, 'quasistatic_2d', n_out=1, dt_bunch=1e-4/ct.c, laser=GaussianPulse(0., 1., 15e-6, 20e-15), laser_evolution=True, r_max=50e-6, xi_min=-40e-6, xi_max=40e-6, n_r=10, n_xi=16, dz_fields=5e-5, ppc=1).track(bunch(), show_progress_bar=False)
check(np.allclose(sorted(set(seen))[:2], [1e23, 1.5e23]), seen)
'''),
 dict(id='drift_tan', property='P22',
  edits=[(W+'beamline_elements/tm_elements.py', "                         np.sin(old_bunch.theta_ref))", "                         np.tan(old_bunch.theta_ref))")],
  needs='a drift or quadrupole between bends of large angle',
  breaks='the reference is displaced by L tan instead of L sin: a chicane does not close',
  demo=COMMON + '''
from wake_t import Dipole, Drift, Beamline
b = ParticleBunch(np.ones(2), np.zeros(2), np.zeros(2), np.zeros(2), np.zeros(2), np.zeros(2), np.full(2, 1000.))
for e in (Dipole(.2, .3), Drift(.5), Dipole(.2, -.3)):
    e.track(b, show_progress_bar=False)
rho = .2 / .3
want = 2 * rho * (1 - np.cos(.3)) + .5 * np.sin(.3)
check(abs(abs(b.x_ref) - want) < 1e-6, (b.x_ref, want))
'''),
 dict(id='csr_drift_keeps', property='P24',
  edits=[(W+'beamline_elements/tm_elements.py', "        else:\n            self.csr_calculator.clear()", "        elif self.theta != 0:\n            self.csr_calculator.clear()")],
  needs='a radiating element, a drift without radiation, and another radiating element',
  breaks='the radiation of an earlier, interrupted sequence still acts',
  demo=COMMON + '''
from wake_t import Dipole, Drift
from wake_t.physics_models.collective_effects.csr import reset_csr_calculator
def end(first):
    reset_csr_calculator()
    rng = np.random.default_rng(1); n = 200
    mk = lambda: ParticleBunch(np.full(n, 1e-10/ct.e/n), *(rng.normal(0, 1e-5, (3, n))), np.zeros(n), np.zeros(n), np.full(n, 1000.))
    if first:
        Dipole(.2, .2, csr_on=True).track(mk(), show_progress_bar=False)
    rng = np.random.default_rng(2)
    b = mk()
    Drift(.1).track(b, show_progress_bar=False)
    Dipole(.2, .2, csr_on=True).track(b, show_progress_bar=False)
    reset_csr_calculator()
    return b.pz
check(np.array_equal(end(False), end(True)), 'history leaks')
'''),
 dict(id='read_guess', property='P25',
  edits=[(W+'utilities/bunch_generation.py', "            elif n_species == 1:", "            elif n_species == 1 or name in available_species:")],
  needs='reading a file with several species, without species name, into a bunch named like one of them',
  breaks='the first species of the file is silently returned under the name of another',
  demo=COMMON + '''
import glob
from wake_t.diagnostics import OpenPMDDiagnostics
from wake_t.utilities.bunch_generation import get_from_file
d = tempfile.mkdtemp()
try:
    OpenPMDDiagnostics(write_dir=d).write_diagnostics(0., 1e-15, [bunch(2, name='a'), bunch(5, name='b')])
    f = glob.glob(d + '/hdf5/*.h5')[0]
    try:
        get_from_file(f, 'openpmd', name='b')
        ok = False
    except ValueError:
        ok = True
    check(ok, 'ambiguous file accepted')
finally:
    shutil.rmtree(d, ignore_errors=True)
'''),
 dict(id='fluid_unit_charge', property='P28',
  edits=[(W+'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py', "            w = bunch.w * (bunch.q_species / ct.e)", "            w = bunch.w * np.sign(bunch.q_species)")],
  needs='a bunch of multiply charged particles in the fluid model',
  breaks='the wakefield depends on the species at the same charge',
  demo=COMMON + '''
from wake_t import PlasmaStage
def ez(z):
    b = ParticleBunch(np.full(1, 1e8 / z), np.zeros(1), np.zeros(1), np.zeros(1), np.zeros(1), np.zeros(1), np.full(1, 1e3), q_species=z * ct.e, m_species=7 * ct.m_p)
    s = PlasmaStage(1e-5, 1e23, 'cold_fluid_1d', n_out=1, dt_bunch=1e-5/ct.c, r_max=50e-6, xi_min=-40e-6, xi_max=40e-6, n_r=10, n_xi=32, dz_fields=1e-5, beam_wakefields=True)
    s.track(b, show_progress_bar=False)
    return [f for f in s.fields][0].e_z.copy()
a, b = ez(1), ez(4)
check(np.max(np.abs(a)) > 0 and np.allclose(a, b, rtol=1e-9, atol=1e-9 * np.max(np.abs(a))), 'species')
'''),
 dict(id='offset_no_slip', property='P31',
  edits=[(W+'physics_models/plasma_wakefields/simple_blowout.py', "            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t", "            xi_off = l_p/2 - l_c - field_off\n            if field_off == 0.:\n                xi_off += (1-b_w)*ct.c*t")],
  needs='the simple blowout model with a field offset, over a distance on which the laser falls back',
  breaks='with a field offset the wake no longer falls back with the laser',
  demo=COMMON + '''
from wake_t import PlasmaStage, GaussianPulse
def gain(off):
    b = ParticleBunch(np.ones(1), np.zeros(1), np.zeros(1), np.full(1, off), np.zeros(1), np.zeros(1), np.full(1, 1e6))
    out = PlasmaStage(4e-4, 1e25, 'simple_blowout', n_out=4, dt_bunch=1e-4/ct.c, field_offset=off, laser=GaussianPulse(0., 1., 1e-5, 1e-14, l_0=5e-6)).track(b, show_progress_bar=False)
    p = [o.pz[0] for o in out]
    return (p[4] - p[3]) - (p[1] - p[0])
check(abs(gain(0.) - gain(1e-6)) < 1e-6 * abs(gain(0.)), (gain(0.), gain(1e-6)))
'''),
 dict(id='parallel_cubic', property='P32',
  edits=[(W+'particles/deposition.py', "@njit_serial\ndef deposit_3d_distribution_cubic", "@njit_parallel()\ndef deposit_3d_distribution_cubic"), (W+'particles/deposition.py', "import njit_serial, prange", "import njit_serial, njit_parallel, prange")],
  needs='several threads and many particles deposited with the cubic shape',
  breaks='threads overwrite the contributions of each other, charge is lost',
  demo='import os\nos.environ.update(NUMBA_NUM_THREADS="4", WAKET_NUM_THREADS="4", WAKET_DISABLE_CACHING="1")\n' + COMMON + '''
from wake_t.particles.deposition import deposit_3d_distribution
n = 200000
r = np.random.default_rng(1).uniform(0, 3, (3, n))
for k in range(3):
    a = np.zeros((14, 14))
    deposit_3d_distribution(r[0] + 2, r[1] / 2 + 2, r[2] / 2 + 2, np.ones(n), 0., .5, 10, 10, 1., 1., a, p_shape='cubic')
    check(abs(a.sum() - n) < 1e-3, a.sum())
'''),
]
