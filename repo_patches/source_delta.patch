From 75589ce6f4783b75c44a9a95b230c0168687ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 01/24] fix: longitudinal weight in linear deposition used the
 radial cell index

---
 wake_t/particles/deposition.py                                  | 2 +-
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From 728388893b75a49f1899f4076f3ff8e862f27b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 02/24] fix: last row of the tridiagonal solver used the wrong
 matrix elements

---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From 84b9c4795de1a4b2d3436a15e430491afc5ad367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 03/24] fix: on-axis particles gathered NaN transverse
 wakefields

---
 wake_t/particles/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..ca60d4a 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,8 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        # On axis (r=0), all transverse components vanish.
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From f57581c6ed3cd30e97a4b8d63ae071bcf1b166a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 04/24] fix: CSR step sizes of a previous beamline survived a
 reset of the calculator

---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From bcc61a5568c6a0be92410f9c200ee2b9ca2f11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 05/24] fix: truncation of the number of CSR steps left bunches
 short of the element end

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..a71fbea 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -206,7 +206,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From 8ed53a1a1cd4671a0f695caf73fabe28e12f4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 06/24] fix: reading saved bunch parameters failed with current
 h5py

---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..0f06d34 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file.get(param)[()]
     return bunch_params
 
 
-- 
2.43.0


From 949155530bb99022e366e8cab0af015bd1c86c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:13:45 +0000
Subject: [PATCH 07/24] fix: blowout fields overwrote instead of adding to
 other fields

---
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From 9ade2fdbf9d47d11612ec03df3e110651d81dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:04 +0000
Subject: [PATCH 08/24] fix: bunches with a time step longer than the element
 were never pushed

---
 wake_t/tracking/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..bff6d1d 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -177,6 +177,9 @@ class Tracker():
                 dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])
             else:
                 dt_objects[i] = dt
+            # Make sure the first push of a bunch does not go beyond `t_final`.
+            if i < len(self.bunches):
+                dt_objects[i] = min(dt_objects[i], self.t_final)
 
         # Start tracking loop.
         while True:
-- 
2.43.0


From b7cc9e525ce7899a48ce222186b1dd52e9f86c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:04 +0000
Subject: [PATCH 09/24] fix: tracking without outputs (the default of the
 tracker) failed

---
 wake_t/tracking/tracker.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index bff6d1d..c2590e0 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -130,9 +130,11 @@ class Tracker():
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
+
+        # Prepare list of output bunches.
+        self.bunch_list = []
+        for bunch in bunches:
+            self.bunch_list.append([])
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +166,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
-- 
2.43.0


From 6a2a6de53af1183f1ce5cf2950d095485d3b5ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:04 +0000
Subject: [PATCH 10/24] fix: tracking an element again started with its fields
 at the time where the previous tracking ended

---
 wake_t/tracking/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index c2590e0..5ab448d 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -161,8 +161,10 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0.
+        # Calculate fields at t=0. The fields have to be initialized in every
+        # tracking, even if they were already used in a previous one.
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From d330077b70af12de6630198204ab69c2837eeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:04 +0000
Subject: [PATCH 11/24] fix: bunch copies lost the tags, time of flight and
 injection position

---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..a37415b 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,6 +311,9 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             prop_distance=deepcopy(self.prop_distance),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
-- 
2.43.0


From 8fdedf0c60b6b3ac84c457082a4a203b974e978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:24 +0000
Subject: [PATCH 12/24] fix: outputs of transfer-map elements shared weights
 with the bunch and lost some of its properties

---
 wake_t/beamline_elements/tm_elements.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index a71fbea..248f77e 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -257,11 +257,9 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
-                                  prop_distance=new_prop_dist,
-                                  name=old_bunch.name,
-                                  q_species=old_bunch.q_species,
-                                  m_species=old_bunch.m_species)
+        new_bunch = old_bunch.copy()
+        new_bunch.set_phase_space_from_matrix(new_bunch_mat)
+        new_bunch.prop_distance = new_prop_dist
         new_bunch.theta_ref = new_theta_ref
         new_bunch.x_ref = new_x_ref
         return new_bunch
-- 
2.43.0


From 7354157aacb12bd424529889667541cf3e6ebee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:24 +0000
Subject: [PATCH 13/24] fix: transfer-map elements kept the mean energy of the
 first tracked bunch as reference for all others

---
 wake_t/beamline_elements/tm_elements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 248f77e..390ef96 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -111,7 +111,8 @@ class TMElement():
         """
         # Convert bunch to ocelot units and reference frame
         bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
-        if self.gamma_ref is None:
+        use_g_avg = self.gamma_ref is None
+        if use_g_avg:
             self.gamma_ref = g_avg
 
         # Add element to CSR calculator
@@ -178,6 +179,10 @@ class TMElement():
         if opmd_diag is not None:
             opmd_diag.increase_z_pos(self.length)
 
+        # Do not use average gamma of this bunch for tracking other bunches.
+        if use_g_avg:
+            self.gamma_ref = None
+
         # Finalize
         if show_progress_bar:
             tracking_time = time.time() - start_time
-- 
2.43.0


From 69196a03ad9438b4b714af2e17a7b762fdc785d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:24 +0000
Subject: [PATCH 14/24] fix: summed laser pulses lost their polarization

---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..c82616d 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -338,7 +338,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From 58b92a43ea507700a0f9fc076cccd40f2414f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:13 +0000
Subject: [PATCH 15/24] fix: changes of the laser grid after initialization
 were only rejected if all parameters changed at once

---
 wake_t/physics_models/laser/laser_pulse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index c82616d..f66b54a 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,14 +125,15 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
-                solver_params['nr'] != self.solver_params['nr']
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
+                solver_params['nr'] != self.solver_params['nr'] or
+                self.a_env.shape != (nz, nr)
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
-- 
2.43.0


From ad362c4ff7cfec2722269f204ef52b8d7c4999b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:25:01 +0000
Subject: [PATCH 16/24] fix: even field updates were adjusted from the time
 step of the previous tracking instead of the requested one

---
 wake_t/fields/numerical_field.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..9d3a75d 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -46,6 +46,8 @@ class NumericalField(Field):
         self.dt_update = dt_update
         self.force_even_updates = force_even_updates
         self.initialized = False
+        self._dt_requested = dt_update
+        self._dt_adjusted = None
 
     def update(
         self,
@@ -95,8 +97,12 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
-            self.dt_update = t_final / n_updates
+            # Adjust always the requested time step, and not the outcome of
+            # the adjustment made in a previous tracking.
+            if self.dt_update != self._dt_adjusted:
+                self._dt_requested = self.dt_update
+            n_updates = np.ceil(t_final / self._dt_requested)
+            self.dt_update = self._dt_adjusted = t_final / n_updates
 
     def _initialize_properties(self, bunches):
         pass
-- 
2.43.0


From 7af819c4521d2e21c190593c2a407180d7b3daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:57 +0000
Subject: [PATCH 17/24] fix: alternative bunch matrix used a different energy
 deviation than the one expected when setting a bunch from it

---
 wake_t/particles/particle_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index a37415b..0d30301 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,8 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        # Same definition as in `set_phase_space_from_alternative_matrix`.
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From 278bea7ceb2db48083525937d4eeb24bdf380422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:49 +0000
Subject: [PATCH 18/24] fix: track bunch through TM elements when only the
 initial bunch is output

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 390ef96..6c545ce 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -224,7 +224,7 @@ class TMElement():
         return l_step, track_steps, output_steps
 
     def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
-        if len(output_bunch_list) == 0:
+        if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, self.gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-- 
2.43.0


From 4e151ba75b5b2168bf83b729f8b90042b824098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:47 +0000
Subject: [PATCH 19/24] fix: use the parabolic coefficient consistently in the
 boundary condition of the wakefield potential

---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From bd6ed22b81a09e6d896bdee7eff1cc2bb2f16e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:13 +0000
Subject: [PATCH 20/24] fix: CSR accelerated bunches of negatively charged
 particles

---
 wake_t/physics_models/collective_effects/csr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..2204ee3 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -90,9 +90,11 @@ class CSRCalculator():
             s_current += el.length
         s_current += element_pos
 
-        # Get line charge profile of bunch as a histogram.
+        # Get line charge profile of bunch as a histogram. The energy change
+        # does not depend on the sign of the charge.
         z = -bunch_matrix[4]
-        bunch_hist, bin_edges = np.histogram(z, self._n_bins, weights=bunch_q)
+        bunch_hist, bin_edges = np.histogram(
+            z, self._n_bins, weights=np.abs(bunch_q))
 
         # Make profile smooth (important to prevent instabilities) using
         # a Gaussian KDE. This method might be changed/optimized.
-- 
2.43.0


From 725b0fc7095d8910ba0e90028ed1a7c706ee50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:24 +0000
Subject: [PATCH 21/24] fix: bunches whose number of particles changed were
 tracked with outdated arrays

---
 wake_t/particles/particle_bunch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 0d30301..8ad371a 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -325,7 +325,9 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        # Allocate again if the number of particles has changed.
+        if (not self.__field_arrays_allocated
+                or len(self.__e_x) != len(self.x)):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -334,7 +336,9 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        # Allocate again if the number of particles has changed.
+        if (not self.__rk4_arrays_allocated
+                or len(self.__x_rk4) != len(self.x)):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From b9b87b1b45e7356127ef75a7425ec1d94c4f04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:09 +0000
Subject: [PATCH 22/24] fix: second-order map of bends with quadrupole or
 sextupole component

Two of the integrals used for the second-order transfer map were wrong: f2y
lacked a factor 1/4 (it did not agree with its own limit for k1 = 0) and J3
was not the integral of dx^3. The vertical chromatic terms and the path length
of combined-function dipoles with a sextupole component were incorrect.
---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..46a1288 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,13 +133,11 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4*ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
+    J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
-    # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
-    #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
     Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
     Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-- 
2.43.0


From 4eb03d4bbfea7df3e0fa325b7460e9d8fb11b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 23/24] fix: transfer maps of bends in which the focusing terms
 cancel

When k1 = -h^2 up to rounding, the dispersion and the second-order terms were
obtained from quotients of rounding errors, and for k1 = -h^2/5 the limits of
the second-order integrals were those of a drift.
---
 .../beam_optics/transfer_matrices.py          | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 46a1288..0fb66c7 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -32,6 +32,8 @@ def first_order_matrix(z, L, theta, k1, gamma_ref):
     gamma = gamma_ref
     hx = theta/L
     kx2 = (k1 + hx*hx)
+    if abs(kx2) < 1e-12 * hx*hx:
+        kx2 = 0.  # Quadrupole cancels the focusing of the bend.
     ky2 = -k1
     kx = np.sqrt(kx2 + 0.j)
     ky = np.sqrt(ky2 + 0.j)
@@ -108,6 +110,8 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     h2 = h*h
     h3 = h2*h
     kx2 = (k1 + h*h)
+    if abs(kx2) < 1e-12 * h*h:
+        kx2 = 0.  # Quadrupole cancels the focusing of the bend.
     ky2 = -k1
     kx4 = kx2*kx2
     kx = np.sqrt(kx2 + 0.j)
@@ -139,10 +143,21 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
-    Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
-    Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-    Jd = (d2y - dx) / J_denom if J_denom != 0 else L4 / 24
-    Jf = (f2y - fx) / J_denom if J_denom != 0 else L5 / 120
+    if abs(J_denom) > 1e-8 * h2:
+        Jc = (c2y - cx) / J_denom
+        Js = (cy * sy - sx) / J_denom
+        Jd = (d2y - dx) / J_denom
+        Jf = (f2y - fx) / J_denom
+    elif kx2 != 0:  # Limit when kx2 = 4 * ky2.
+        Jc = 0.5 * L * sx
+        Js = 0.5 * (sx - L*cx) / kx2
+        Jd = (dx - 0.5*L*sx) / kx2
+        Jf = (fx - Js) / kx2
+    else:
+        Jc = 0.5 * L2
+        Js = L3 / 6
+        Jd = L4 / 24
+        Jf = L5 / 120
 
     khk = K2 + 2*h*K1
     T = np.zeros((6, 6, 6))
-- 
2.43.0


From de49a4d5d9ffb35ab204ec943f0f1b18ef3f4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:59 +0000
Subject: [PATCH 24/24] fix: backtracking in transfer-map elements

Tracking backwards applied the forward map, advanced the position and the
diagnostics forwards and bent the reference trajectory to the wrong side.
---
 wake_t/beamline_elements/tm_elements.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 6c545ce..cfaaf9c 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -122,6 +122,9 @@ class TMElement():
             self.csr_calculator.clear()
         # Determine track and output steps
         l_step, track_steps, output_steps = self._determine_steps()
+        l_tot = self.length
+        if backtrack:
+            l_step, l_tot = -l_step, -l_tot
 
         # Create diagnostics if needed
         if type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag:
@@ -152,7 +155,7 @@ class TMElement():
         for i in track_steps:
             if show_progress_bar:
                 print_progress_bar(st_0, i+1, n_steps)
-            l_curr = (i+1) * l_step * (1-2*backtrack)
+            l_curr = (i+1) * l_step
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
                 bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
@@ -173,11 +176,11 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(bunch, bunch_mat, output_bunch_list, l_tot)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
-            opmd_diag.increase_z_pos(self.length)
+            opmd_diag.increase_z_pos(l_tot)
 
         # Do not use average gamma of this bunch for tracking other bunches.
         if use_g_avg:
@@ -223,12 +226,11 @@ class TMElement():
             output_steps = []
         return l_step, track_steps, output_steps
 
-    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
+    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list, l_tot):
         if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, self.gamma_ref)
-            last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-                                                self.length)
+            last_bunch = self._create_new_bunch(bunch, new_bunch_mat, l_tot)
         else:
             last_bunch = output_bunch_list[-1].copy()
         bunch.set_phase_space(last_bunch.x, last_bunch.y, last_bunch.xi,
@@ -245,7 +247,7 @@ class TMElement():
             rho = abs(self.length/self.theta)
             # new reference angle and transverse displacement
             new_theta_ref = old_bunch.theta_ref + theta_step
-            sign = -theta_step/abs(theta_step)
+            sign = -self.theta/abs(self.theta)
             new_x_ref = (
                 old_bunch.x_ref +
                 sign*rho*(np.cos(new_theta_ref)-np.cos(old_bunch.theta_ref)))
-- 
2.43.0

