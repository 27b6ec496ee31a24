COMMON = '''
import numpy as np, scipy.constants as ct, sys
from wake_t.particles.particle_bunch import ParticleBunch
from wake_t.beamline_elements import FieldElement
from wake_t.fields.base import Field
from wake_t.fields.numerical_field import NumericalField
def bunch(n=3, pz=1000., **k):
    return ParticleBunch(np.ones(n), np.linspace(-1,1,n)*1e-6, np.zeros(n), -np.arange(n)*1e-3, np.zeros(n), np.zeros(n), np.full(n, pz), **k)
def check(ok, what):
    if not ok:
        print('FAIL:', what); sys.exit(1)
'''
SEEDS = [
 dict(id='inj_mean', property='P11',
  edits=[('wake_t/particles/particle_bunch.py', "if (np.amax(self.xi) + self.prop_distance) < self.z_injection:", "if (np.mean(self.xi) + self.prop_distance) < self.z_injection:")],
  needs='an injection position between the head and the centre of a long bunch at the start of some step',
  breaks='the bunch keeps moving ballistically after its foremost particle passed the injection position',
  demo=COMMON + '''
class F(Field):
    n = 0
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz):
        self.n += 1
f = F()
b = bunch(n=11, z_injection=2.5e-3)
FieldElement(10e-3, 1e-3/ct.c, fields=[f], n_out=1, push_bunches_before_diags=False).track(b, show_progress_bar=False)
check(f.n == 7, f.n)
'''),
 dict(id='field_blind', property='P03',
  edits=[('wake_t/tracking/tracker.py', "                obj_next.update(self.bunches)", "                obj_next.update(\n                    [b for b in self.bunches if b.z_injection is None])")],
  needs='a bunch with an injection position tracked together with a numerical field',
  breaks='after the first evaluation the field no longer sees the bunch',
  demo=COMMON + '''
class N(NumericalField):
    seen = ()
    def _calculate_field(self, bunches): self.seen += (len(bunches),)
    def _gather(self, *a): pass
f = N(3e-3/ct.c)
FieldElement(10e-3, 1e-3/ct.c, fields=[f], n_out=1).track([bunch(2), bunch(3, z_injection=0.)], show_progress_bar=False)
check(set(f.seen) == {2}, f.seen)
'''),
 dict(id='rk4_time', property='P04',
  edits=[('wake_t/particles/push/runge_kutta_4.py', "            if i == 3:\n                t_i += dt\n", "            if i == 4:\n                t_i += dt\n")],
  needs='a time-dependent field and the rk4 pusher',
  breaks='the forces of the last Runge-Kutta stage are evaluated at the start instead of the end of the step',
  demo=COMMON + '''
class F(Field):
    ts = ()
    def _gather(self, x, y, z, t, ex, ey, ez, bx, by, bz): self.ts += (t*ct.c*1e3,)
f = F()
FieldElement(2e-3, 2e-3/ct.c, 'rk4', fields=[f], n_out=1).track(bunch(), show_progress_bar=False)
check(np.allclose(sorted(f.ts)[:4], [0, 1, 1, 2]), f.ts)
'''),
 dict(id='auto_never_longer', property='P02',
  edits=[('wake_t/tracking/tracker.py', "            dt_objects[i_next] = self.auto_dt_bunch_f(bunch)", "            dt_objects[i_next] = min(\n                dt_objects[i_next], self.auto_dt_bunch_f(bunch))")],
  needs='an adaptive rule that asks for longer steps later',
  breaks='the adaptive time step can only shrink',
  demo=COMMON + '''
class F(Field):
    n = 0
    def _gather(self, *a): self.n += 1
f = F()
FieldElement(12e-3, 'auto', fields=[f], n_out=1, push_bunches_before_diags=False, auto_dt_bunch=lambda b: (1e-3 if b.prop_distance < 2.5e-3 else 3e-3)/ct.c).track(bunch(2), show_progress_bar=False)
check(f.n == 6, f.n)
'''),
 dict(id='prepush_first', property='P05',
  edits=[('wake_t/tracking/tracker.py', "                            dt_bunch = t_next - t_objects[i]\n", "                            dt_bunch = min(\n                                t_next - t_objects[i], dt_objects[i_next])\n                            dt_bunch = min(dt_bunch, dt_objects[0])\n")],
  needs='several bunches, the first with a much shorter time step than the lag of the others at an output',
  breaks='bunches other than the first are not advanced all the way to the output',
  demo=COMMON + '''
class F(Field):
    def _gather(self, *a): pass
out = FieldElement(12e-3, [1e-3/ct.c, 5e-3/ct.c], fields=[F()], n_out=3).track([bunch(2), bunch(4)], show_progress_bar=False)
p = [b.prop_distance for b in out[1]]
check(np.allclose(p, [0, 4e-3, 8e-3, 12e-3]), p)
'''),
]
