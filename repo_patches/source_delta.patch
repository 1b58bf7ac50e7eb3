From 045494a44351900e1196ff67fbc0c897a66af6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:01 +0000
Subject: [PATCH 01/20] fix: allow tracking without diagnostics (n_diags=0)

---
 wake_t/tracking/tracker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..efbc969 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -130,9 +130,9 @@ class Tracker():
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
+
+        # Create lists where the output of each bunch will be stored.
+        self.bunch_list = [[] for bunch in bunches]
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +164,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
-- 
2.43.0


From d2866bcd173d958d424a8a58ea54eeaea2cb597e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:01 +0000
Subject: [PATCH 02/20] fix: push bunches to the end of the stage when dt is
 larger than the stage

---
 wake_t/tracking/tracker.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index efbc969..67bc2f5 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -179,6 +179,12 @@ class Tracker():
             else:
                 dt_objects[i] = dt
 
+        # Make sure that also the first push of the bunches does not go beyond
+        # `t_final`.
+        n_bunches = len(self.bunches)
+        dt_objects[:n_bunches] = np.minimum(
+            dt_objects[:n_bunches], self.t_final)
+
         # Start tracking loop.
         while True:
 
-- 
2.43.0


From b6170e500f0b92b1d3ee566f6f77799aac1ee400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:19:35 +0000
Subject: [PATCH 03/20] fix: restore number of threads when tracking fails or
 is interrupted

---
 wake_t/tracking/tracker.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 67bc2f5..b4df8ef 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -150,7 +150,6 @@ class Tracker():
         # Get current number of threads before setting it to the number
         # requested by Wake-T.
         num_threads_outside_waket = get_num_threads()
-        set_num_threads(num_threads)
 
         # Initialize progress bar.
         progress_bar = get_progress_bar(
@@ -159,6 +158,23 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
+        try:
+            set_num_threads(num_threads)
+            self._run_tracking_loop(progress_bar)
+        finally:
+            # Reset the number of threads to the value outside of Wake-T.
+            # This should help avoiding Wake-T to affect the behavior of other
+            # applications that require a different number of threads.
+            # It is done also if the tracking fails or is interrupted.
+            set_num_threads(num_threads_outside_waket)
+
+            # Close progress bar.
+            progress_bar.close()
+
+        return self.bunch_list
+
+    def _run_tracking_loop(self, progress_bar) -> None:
+        """Evolve bunches, fields and diagnostics until `t_final`."""
         # Calculate fields at t=0.
         for field in self.num_fields:
             field.update(self.bunches)
@@ -258,16 +274,6 @@ class Tracker():
         if self.opmd_diags is not None:
             self.opmd_diags.increase_z_pos(self.t_final * ct.c)
 
-        # Close progress bar.
-        progress_bar.close()
-
-        # Reset the number of threads to the value outside of Wake-T.
-        # This should help avoiding Wake-T to affect the behavior of other
-        # applications that require a different number of threads.
-        set_num_threads(num_threads_outside_waket)
-
-        return self.bunch_list
-
     def evolve_bunch(
         self,
         bunch: ParticleBunch,
-- 
2.43.0


From 682797aab17ce37bfff24bfdc90f85e1edecf75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:00 +0000
Subject: [PATCH 04/20] fix: avoid endless or shortened tracking when a time
 sits on a float32 rounding edge

---
 wake_t/tracking/tracker.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index b4df8ef..e86d77f 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -83,6 +83,9 @@ class Tracker():
 
     """
 
+    # Relative difference below which two times are considered to be the same.
+    rel_time_tol = 1e-7
+
     def __init__(
         self,
         t_final: float,
@@ -208,14 +211,14 @@ class Tracker():
             t_next_objects = t_objects + dt_objects
 
             # Get index of the object with smallest next time.
-            # float32 is used to avoid precision issues. Since
+            # A tolerance is used to avoid precision issues. Since
             # `t_next_objects` is calculated by repeatedly adding dt_objects,
             # it can happen that two objects that are supposed to have exactly
             # the same `t_next_objects` do not have it due to precision issues.
-            # Going from float64 to float32 reduces the number of decimals,
-            # thus making sure that two "almost identical" numbers at float64
-            # are actually identical as float32.
-            i_next = np.argmin(t_next_objects.astype(np.float32))
+            # With a relative tolerance (instead of, e.g., rounding to float32)
+            # two "almost identical" numbers are always considered identical.
+            t_first = np.min(t_next_objects) * (1 + self.rel_time_tol)
+            i_next = np.argmax(t_next_objects <= t_first)
 
             # Get next object and its corresponding time and time step.
             obj_next = self.objects_to_track[i_next]
@@ -225,7 +228,7 @@ class Tracker():
 
             # If the next time of the object is beyond `t_final`, the tracking
             # is finished.
-            if np.float32(t_next) > np.float32(self.t_final):
+            if t_next > self.t_final * (1 + self.rel_time_tol):
                 break
 
             # Advance tracking time.
@@ -305,7 +308,7 @@ class Tracker():
         if bunch in self.auto_dt_bunches:
             dt_objects[i_next] = self.auto_dt_bunch_f(bunch)
         # Determine if this was the last push.
-        final_push = np.float32(t_next) == np.float32(self.t_final)
+        final_push = t_next >= self.t_final * (1 - self.rel_time_tol)
         # Determine if next push brings the bunch beyond `t_final`.
         next_push_beyond_final_time = (
             t_next + dt_objects[i_next] > self.t_final)
-- 
2.43.0


From 88e97da511b8dab7704b929781826b3306617565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:00 +0000
Subject: [PATCH 05/20] fix: clear also the element steps when resetting the
 CSR calculator

---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From 4c59f26d13a8aa4a92e8600773ebe69e7acc1251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:00 +0000
Subject: [PATCH 06/20] fix: do not lose a CSR step of an element due to
 rounding errors

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..a71fbea 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -206,7 +206,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From 215fd8551103d66a3b2a68723a90a13e7f7dc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:00 +0000
Subject: [PATCH 07/20] fix: use the average energy of each bunch when
 gamma_ref is not given

---
 wake_t/beamline_elements/tm_elements.py | 35 +++++++++++++------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index a71fbea..2398087 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -111,8 +111,7 @@ class TMElement():
         """
         # Convert bunch to ocelot units and reference frame
         bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
-        if self.gamma_ref is None:
-            self.gamma_ref = g_avg
+        gamma_ref = g_avg if self.gamma_ref is None else self.gamma_ref
 
         # Add element to CSR calculator
         if self.csr_on:
@@ -133,7 +132,7 @@ class TMElement():
             print('')
             print(self.element_name.capitalize())
             print('-'*len(self.element_name))
-            self._print_element_properties()
+            self._print_element_properties(gamma_ref)
             csr_string = 'on' if self.csr_on else 'off'
             print('CSR {}.'.format(csr_string))
             print('')
@@ -155,15 +154,15 @@ class TMElement():
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
                 bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
-                self.gamma_ref, order=self.order)
+                gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              self.gamma_ref, self, l_curr)
+                                              gamma_ref, self, l_curr)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
-                    bunch_mat, self.gamma_ref)
+                    bunch_mat, gamma_ref)
                 new_bunch = self._create_new_bunch(
                     bunch, new_bunch_mat, l_curr)
                 output_bunch_list.append(new_bunch)
@@ -172,7 +171,8 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(
+            bunch, bunch_mat, gamma_ref, output_bunch_list)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
@@ -218,10 +218,11 @@ class TMElement():
             output_steps = []
         return l_step, track_steps, output_steps
 
-    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
+    def _update_input_bunch(
+            self, bunch, bunch_mat, gamma_ref, output_bunch_list):
         if len(output_bunch_list) == 0:
             new_bunch_mat = convert_from_ocelot_matrix(
-                bunch_mat, self.gamma_ref)
+                bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
                                                 self.length)
         else:
@@ -266,7 +267,7 @@ class TMElement():
         new_bunch.x_ref = new_x_ref
         return new_bunch
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         "To be implemented by each element. Prints the element properties"
         raise NotImplementedError
 
@@ -306,7 +307,7 @@ class Drift(TMElement):
         super().__init__(length, 0, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'drift'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         print('Length = {:1.4f} m'.format(self.length))
 
 
@@ -349,9 +350,9 @@ class Dipole(TMElement):
         super().__init__(length, theta, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'dipole'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         ang_deg = self.theta * 180/ct.pi
-        b_field = (ct.m_e*ct.c/ct.e) * self.theta*self.gamma_ref/self.length
+        b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
         print('Bending angle = {:1.4f} rad ({:1.4f} deg)'.format(
             self.theta, ang_deg))
         print('Dipole field = {:1.4f} T'.format(b_field))
@@ -395,8 +396,8 @@ class Quadrupole(TMElement):
         super().__init__(length, 0, k1, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'quadrupole'
 
-    def _print_element_properties(self):
-        g = self.k1 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k1 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Quadrupole gradient = {:1.4f} T/m'.format(g))
 
 
@@ -438,6 +439,6 @@ class Sextupole(TMElement):
         super().__init__(length, 0, 0, k2, gamma_ref, csr_on, n_out, order)
         self.element_name = 'sextupole'
 
-    def _print_element_properties(self):
-        g = self.k2 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k2 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Sextupole gradient = {:1.4f} T/m^2'.format(g))
-- 
2.43.0


From cb997296cc077d8db770aab5a87b7ab8803c2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:20 +0000
Subject: [PATCH 08/20] fix: allow tracking in a generic TMElement with the
 progress bar on

---
 wake_t/beamline_elements/tm_elements.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 2398087..31b0f46 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -268,8 +268,8 @@ class TMElement():
         return new_bunch
 
     def _print_element_properties(self, gamma_ref):
-        "To be implemented by each element. Prints the element properties"
-        raise NotImplementedError
+        "Can be overriden by each element. Prints the element properties"
+        print('Length = {:1.4f} m'.format(self.length))
 
 
 class Drift(TMElement):
-- 
2.43.0


From ed756de0c5f3523b485d6269f3a1fb3e8faf0293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:20 +0000
Subject: [PATCH 09/20] fix: make bunch copies and outputs complete and
 independent of the bunch

---
 wake_t/beamline_elements/tm_elements.py | 7 ++++++-
 wake_t/particles/particle_bunch.py      | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 31b0f46..00205a9 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -1,6 +1,7 @@
 """ Contains the classes of all elements tracked using transfer matrices. """
 from typing import Optional, Union, List
 import time
+from copy import deepcopy
 
 import numpy as np
 import scipy.constants as ct
@@ -258,8 +259,12 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+        new_bunch = ParticleBunch(np.copy(old_bunch.w),
+                                  bunch_matrix=new_bunch_mat,
+                                  tags=deepcopy(old_bunch.tags),
                                   prop_distance=new_prop_dist,
+                                  t_flight=old_bunch.t_flight,
+                                  z_injection=old_bunch.z_injection,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
                                   m_species=old_bunch.m_species)
diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..01d6f8e 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -311,7 +311,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From b3f60117018fe3153057ef6fe6815b70e4d51212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:20 +0000
Subject: [PATCH 10/20] fix: restart the clock of the numerical fields on every
 tracking

---
 wake_t/fields/numerical_field.py | 3 ++-
 wake_t/tracking/tracker.py       | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..29c904e 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -44,6 +44,7 @@ class NumericalField(Field):
     ) -> None:
         super().__init__(openpmd_diag_supported=openpmd_diag_supported)
         self.dt_update = dt_update
+        self._dt_update_requested = dt_update
         self.force_even_updates = force_even_updates
         self.initialized = False
 
@@ -95,7 +96,7 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
+            n_updates = np.ceil(t_final / self._dt_update_requested)
             self.dt_update = t_final / n_updates
 
     def _initialize_properties(self, bunches):
diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index e86d77f..e34b8b5 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -178,8 +178,10 @@ class Tracker():
 
     def _run_tracking_loop(self, progress_bar) -> None:
         """Evolve bunches, fields and diagnostics until `t_final`."""
-        # Calculate fields at t=0.
+        # Calculate fields at t=0. They need to be (re)initialized because they
+        # could have been already used in a previous tracking.
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From 5bbd94be604126df84853856f81984326e2eec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:20 +0000
Subject: [PATCH 11/20] fix: reject any change in the grid of an initialized
 laser envelope

---
 wake_t/physics_models/laser/laser_pulse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..a444940 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,13 +125,13 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
                 solver_params['nr'] != self.solver_params['nr']
             ):
                 raise ValueError(
-- 
2.43.0


From 74fd3cb5d1811454eae24b2f1268a63dccb0d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:20 +0000
Subject: [PATCH 12/20] fix: read bunch parameters from file with current h5py
 versions

---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..032b7df 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file[param][()]
     return bunch_params
 
 
-- 
2.43.0


From 8a1ab9c705f45bca88e0fc2dda8cb8dbeab17989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:20:32 +0000
Subject: [PATCH 13/20] fix: reallocate auxiliary bunch arrays if the number of
 particles changes

---
 wake_t/particles/particle_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 01d6f8e..0b31e99 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -325,7 +325,8 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        if (not self.__field_arrays_allocated or
+                len(self.__e_x) != len(self.x)):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -334,7 +335,8 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        if (not self.__rk4_arrays_allocated or
+                len(self.__x_rk4) != len(self.x)):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From d64954e6a15876175258bb1f3dedb4203fa2754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:33 +0000
Subject: [PATCH 14/20] fix: allow tracking when there is nothing to evolve in
 an element

---
 wake_t/tracking/tracker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index e34b8b5..176c03f 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -206,8 +206,8 @@ class Tracker():
         dt_objects[:n_bunches] = np.minimum(
             dt_objects[:n_bunches], self.t_final)
 
-        # Start tracking loop.
-        while True:
+        # Start tracking loop (unless there is nothing to evolve).
+        while len(self.objects_to_track) > 0:
 
             # Calculate next time of all objects.
             t_next_objects = t_objects + dt_objects
-- 
2.43.0


From aefa460f4f3a0d28e68b06477a983f41c5481391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:09 +0000
Subject: [PATCH 15/20] fix: raise an error instead of tracking forever if a
 time step is 0 or NaN

---
 wake_t/tracking/tracker.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 176c03f..c23b407 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -206,6 +206,9 @@ class Tracker():
         dt_objects[:n_bunches] = np.minimum(
             dt_objects[:n_bunches], self.t_final)
 
+        # The tracking would never end with a time step of 0 or NaN.
+        self._check_time_steps(dt_objects)
+
         # Start tracking loop (unless there is nothing to evolve).
         while len(self.objects_to_track) > 0:
 
@@ -309,6 +312,7 @@ class Tracker():
         # Update the time step if set to `'auto'`.
         if bunch in self.auto_dt_bunches:
             dt_objects[i_next] = self.auto_dt_bunch_f(bunch)
+            self._check_time_steps(dt_objects[i_next])
         # Determine if this was the last push.
         final_push = t_next >= self.t_final * (1 - self.rel_time_tol)
         # Determine if next push brings the bunch beyond `t_final`.
@@ -319,6 +323,14 @@ class Tracker():
         if not final_push and next_push_beyond_final_time:
             dt_objects[i_next] = self.t_final - t_next
 
+    def _check_time_steps(self, dt) -> None:
+        """Check that all given time steps are positive numbers."""
+        if not np.all(np.asarray(dt) > 0):
+            raise ValueError(
+                'All time steps of bunches, fields and diagnostics must be '
+                f'positive numbers, but got {dt}.'
+            )
+
     def generate_diagnostics(self) -> None:
         """Generate tracking diagnostics."""
         # Make copy of current bunches and store in output list.
-- 
2.43.0


From 52ded4832383f600a2651e3fe2223fc1b3a056ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:22 +0000
Subject: [PATCH 16/20] fix: start CSR calculation anew also after a
 field-based element

---
 wake_t/beamline_elements/field_element.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wake_t/beamline_elements/field_element.py b/wake_t/beamline_elements/field_element.py
index 31159d9..ecea4b9 100644
--- a/wake_t/beamline_elements/field_element.py
+++ b/wake_t/beamline_elements/field_element.py
@@ -6,6 +6,7 @@ from wake_t.diagnostics import OpenPMDDiagnostics
 from wake_t.tracking.tracker import Tracker
 from wake_t.fields.base import Field
 from wake_t.particles.particle_bunch import ParticleBunch
+from wake_t.physics_models.collective_effects.csr import get_csr_calculator
 
 
 class FieldElement():
@@ -123,6 +124,10 @@ class FieldElement():
                 )
             dt_bunch = self.dt_bunch
 
+        # There is no CSR in this element. As in any other element without it,
+        # a CSR calculation in later elements should start anew.
+        get_csr_calculator().clear()
+
         # Create diagnostics instance.
         if type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag:
             opmd_diag = OpenPMDDiagnostics(write_dir=diag_dir)
-- 
2.43.0


From 545e3cf05e41ee90a3c1b56cf290a2b0098efe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:33 +0000
Subject: [PATCH 17/20] fix: leave laser pulse untouched when a change of its
 grid is rejected

The subgrid was replaced before checking the new grid, and a change of the
main grid was not noticed when running on a subgrid of the same size.
---
 wake_t/physics_models/laser/laser_pulse.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index a444940..787ceb1 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -107,19 +107,17 @@ class LaserPulse():
                 'Number of laser envelope substeps cannot be smaller than 1.')
 
         # Determine whether to run laser envelope in a subgrid.
-        self.use_subgrid = subgrid_nz is not None or subgrid_nr is not None
-        if self.use_subgrid:
+        use_subgrid = subgrid_nz is not None or subgrid_nr is not None
+        if use_subgrid:
             subgrid_nz = nz if subgrid_nz is None else subgrid_nz
             subgrid_nr = nr if subgrid_nr is None else subgrid_nr
-            self._create_laser_subgrid(
-                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
         solver_params = {
             'zmin': xi_min,
             'zmax': xi_max,
             'rmax': r_max,
-            'nz': subgrid_nz if self.use_subgrid else nz,
-            'nr': subgrid_nr if self.use_subgrid else nr,
+            'nz': subgrid_nz if use_subgrid else nz,
+            'nr': subgrid_nr if use_subgrid else nr,
             'nt': nt,
             'dt': dt / nt,
             'use_phase': use_phase
@@ -132,7 +130,8 @@ class LaserPulse():
                 solver_params['zmax'] != self.solver_params['zmax'] or
                 solver_params['rmax'] != self.solver_params['rmax'] or
                 solver_params['nz'] != self.solver_params['nz'] or
-                solver_params['nr'] != self.solver_params['nr']
+                solver_params['nr'] != self.solver_params['nr'] or
+                self.a_env.shape != (nz, nr)
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
@@ -142,6 +141,10 @@ class LaserPulse():
             # non-centered envelope solver is used for the next step.
             if solver_params['dt'] != self.solver_params['dt']:
                 self.n_steps = 0
+        self.use_subgrid = use_subgrid
+        if self.use_subgrid:
+            self._create_laser_subgrid(
+                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
         self.solver_params = solver_params
 
     def initialize_envelope(self) -> None:
-- 
2.43.0


From d564fad6b5fae5b2ae861ab9a74c659d4012ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:15 +0000
Subject: [PATCH 18/20] fix: raise storage errors when saving bunches and
 parameters to HDF5

---
 wake_t/diagnostics/bunch_analysis.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index 032b7df..d018205 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -82,7 +82,8 @@ def save_parameters_to_file(bunch_params, folder_path, file_name):
     file_path = os.path.join(folder_path, file_name + '.h5')
     with H5File(file_path, 'w') as h5_file:
         for param_name, param_data in bunch_params.items():
-            h5_file.create_dataset(param_name, data=param_data)
+            h5_file.create_dataset(param_name, data=param_data).flush()
+        h5_file.flush()
 
 
 def read_parameters_from_file(file_path):
@@ -98,14 +99,15 @@ def save_bunch_to_file(bunch, folder_path, file_name):
         os.makedirs(folder_path)
     file_path = os.path.join(folder_path, file_name + '.h5')
     with H5File(file_path, 'w') as h5_file:
-        h5_file.create_dataset('x', data=bunch.x)
-        h5_file.create_dataset('y', data=bunch.y)
-        h5_file.create_dataset('xi', data=bunch.xi)
-        h5_file.create_dataset('px', data=bunch.px)
-        h5_file.create_dataset('py', data=bunch.py)
-        h5_file.create_dataset('pz', data=bunch.pz)
-        h5_file.create_dataset('q', data=bunch.q)
+        h5_file.create_dataset('x', data=bunch.x).flush()
+        h5_file.create_dataset('y', data=bunch.y).flush()
+        h5_file.create_dataset('xi', data=bunch.xi).flush()
+        h5_file.create_dataset('px', data=bunch.px).flush()
+        h5_file.create_dataset('py', data=bunch.py).flush()
+        h5_file.create_dataset('pz', data=bunch.pz).flush()
+        h5_file.create_dataset('q', data=bunch.q).flush()
         h5_file.attrs['prop_dist'] = bunch.prop_distance
+        h5_file.flush()
 
 
 def _get_distribution_parameters(x, y, z, px, py, pz, q, n_slices, len_slice):
-- 
2.43.0


From 2af802ec9fc119a4faf429dad26cf61a88d693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:23 +0000
Subject: [PATCH 19/20] fix: do not lose particles on axis in numerical
 wakefields

---
 wake_t/particles/interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..4b35c07 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,8 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        # The transverse fields vanish on axis, where 1/r is not defined.
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 873541ca855343f638810f669f03e0eab496ca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 20/20] fix: TMElement.track with out_initial and without n_out
 did not advance the bunch

---
 wake_t/beamline_elements/tm_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 00205a9..ba2a76f 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -171,9 +171,10 @@ class TMElement():
                     opmd_diag.write_diagnostics(
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
-        # Update bunch data
+        # Update bunch data (from the last output, which should not be the
+        # initial bunch).
         self._update_input_bunch(
-            bunch, bunch_mat, gamma_ref, output_bunch_list)
+            bunch, bunch_mat, gamma_ref, output_bunch_list[int(out_initial):])
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
-- 
2.43.0

