From 8d9fe67e79dfdc30030189f9adf9af957a778b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 01/61] fix: wall hits ending exactly on a polygon edge get
 that edge and a unit normal

The segment search required t<1, so a particle whose step ends exactly on the
wall was reported as hitting segment 0 with a null normal; cases without any
intersection never reached the fallback in the python layer since their index
stayed 0, and the fallback normal was not normalized.
---
 geom_impact_poly_cython.pyx     | 4 ++--
 geom_impact_poly_fast_impact.py | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/geom_impact_poly_cython.pyx b/geom_impact_poly_cython.pyx
index c3fe076..11e0fd3 100644
--- a/geom_impact_poly_cython.pyx
+++ b/geom_impact_poly_cython.pyx
@@ -54,7 +54,7 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
 
             if t_border>=0. and t_border<=1.:
                 t_ii = (Nx[ii]*(Vx[ii]-x_in_curr)+Ny[ii]*(Vy[ii]-y_in_curr)) /(Nx[ii]*(x_out_curr-x_in_curr)+Ny[ii]*(y_out_curr-y_in_curr))
-                if t_ii>=0. and t_ii<t_min_curr:
+                if t_ii>=0. and (t_ii<t_min_curr or (t_ii==1. and i_found_curr<0)):
                     t_min_curr=t_ii
                     fould_curr = True
                     i_found_curr = ii
@@ -65,10 +65,10 @@ cpdef impact_point_and_normal(double[::1] x_in, double[::1] y_in, double[::1] z_
         y_int[i_imp]=t_min_curr*y_out_curr+(1.-t_min_curr)*y_in_curr
         z_int[i_imp]=0
 
+        i_found[i_imp] = i_found_curr
         if i_found_curr>=0:
             Nx_int[i_imp] = Nx[i_found_curr]
             Ny_int[i_imp] = Ny[i_found_curr]
-            i_found[i_imp] = i_found_curr
 
     return x_int, y_int, z_int, Nx_int, Ny_int, i_found
 
diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 2bdffaa..8b1a8b0 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -195,6 +195,10 @@ class polyg_cham_geom_object(object):
             Nx_corr[neg_flag] = -Nx_corr[neg_flag]
             Ny_corr[neg_flag] = -Ny_corr[neg_flag]
 
+            norm_corr = np.sqrt(Nx_corr**2 + Ny_corr**2)
+            Nx_corr = Nx_corr / norm_corr
+            Ny_corr = Ny_corr / norm_corr
+
             Nx_int[mask_not_found] = Nx_corr
             Ny_int[mask_not_found] = Ny_corr
 
-- 
2.43.0


From 93133c648a73d641e4771e72b260adc0f3d21548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 02/61] fix: reject a zero length closing segment in polygonal
 chambers

A polygon whose last vertex repeats the first one passed the check and got a
closing edge with undefined normal, so that all points beyond the inscribed
ellipse were classified as outside.
---
 geom_impact_poly_fast_impact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 8b1a8b0..566abda 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -96,7 +96,7 @@ class polyg_cham_geom_object(object):
                 self.tau_segments = np.squeeze(dict_chm['tau_segments'])
 
 
-        if np.any(np.sqrt(np.diff(Vx)**2 + np.diff(Vy)**2) < 1e-9):
+        if np.any(np.sqrt(np.diff(np.append(Vx, Vx[0]))**2 + np.diff(np.append(Vy, Vy[0]))**2) < 1e-9):
             raise PyECLOUD_ChamberException('There is a zero length segment!')
 
         self.N_vert = len(Vx)
-- 
2.43.0


From 0c9d7762e2a4f4e9cece4e5094c90889cc18776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 03/61] fix: wall hits of paths starting on the wall get the
 closest edge and its normal

---
 geom_impact_poly_fast_impact.py | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/geom_impact_poly_fast_impact.py b/geom_impact_poly_fast_impact.py
index 566abda..bf9c8b2 100644
--- a/geom_impact_poly_fast_impact.py
+++ b/geom_impact_poly_fast_impact.py
@@ -64,6 +64,14 @@ class PyECLOUD_ChamberException(ValueError):
     pass
 
 
+def _distance_to_segment(point, start, end):
+    Dx = end[0] - start[0]
+    Dy = end[1] - start[1]
+    t_closest = ((point[0] - start[0]) * Dx + (point[1] - start[1]) * Dy) / (Dx**2 + Dy**2)
+    t_closest = np.clip(t_closest, 0., 1.)
+    return np.sqrt((start[0] + t_closest * Dx - point[0])**2 + (start[1] + t_closest * Dy - point[1])**2)
+
+
 class polyg_cham_geom_object(object):
 
     chamb_type = 'polyg'
@@ -181,26 +189,19 @@ class polyg_cham_geom_object(object):
             x_int[mask_not_found] = x_in[mask_not_found]
             y_int[mask_not_found] = y_in[mask_not_found]
 
-            #compute some kind of normal ....
-            par_cross = arctan2(self.cx * y_in[mask_not_found], self.cy * x_int[mask_not_found])
-
-            Dx = -self.cx * sin(par_cross)
-            Dy = self.cy * cos(par_cross)
-
-            Nx_corr = -Dy
-            Ny_corr = Dx
-
-            neg_flag = ((Nx_corr * x_int[mask_not_found] + Ny_corr * y_int[mask_not_found]) > 0)
-
-            Nx_corr[neg_flag] = -Nx_corr[neg_flag]
-            Ny_corr[neg_flag] = -Ny_corr[neg_flag]
-
-            norm_corr = np.sqrt(Nx_corr**2 + Ny_corr**2)
-            Nx_corr = Nx_corr / norm_corr
-            Ny_corr = Ny_corr / norm_corr
-
-            Nx_int[mask_not_found] = Nx_corr
-            Ny_int[mask_not_found] = Ny_corr
+            # the path starts or ends on the wall or goes through a corner (within rounding):
+            # take the edge that is closest to the path
+            p_in = (x_in[mask_not_found][:, np.newaxis], y_in[mask_not_found][:, np.newaxis])
+            p_out = (x_out[mask_not_found][:, np.newaxis], y_out[mask_not_found][:, np.newaxis])
+            edg_start = (self.Vx[:-1], self.Vy[:-1])
+            edg_end = (self.Vx[1:], self.Vy[1:])
+            i_closest = np.argmin(np.minimum(
+                np.minimum(_distance_to_segment(p_in, edg_start, edg_end), _distance_to_segment(p_out, edg_start, edg_end)),
+                np.minimum(_distance_to_segment(edg_start, p_in, p_out), _distance_to_segment(edg_end, p_in, p_out))), axis=1)
+
+            i_found[mask_not_found] = i_closest
+            Nx_int[mask_not_found] = self.Nx[i_closest]
+            Ny_int[mask_not_found] = self.Ny[i_closest]
 
             x_in_error = x_in[mask_not_found]
             y_in_error = y_in[mask_not_found]
-- 
2.43.0


From d2b46adf824d2d1af76719b19a006debeda0a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 04/61] fix: impact energies below the emission table use its
 first value

---
 sec_emission_model_from_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index d4faef4..0acbe52 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -185,7 +185,8 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         """
         Linear interpolation of the energy - SEY curve.
         """
-        index_float = (energy_eV - self.energy_eV_min) / self.delta_e
+        # below the table the first value is used
+        index_float = (np.maximum(energy_eV, self.energy_eV_min) - self.energy_eV_min) / self.delta_e
         index_remainder, index_int = np.modf(index_float)
         index_int = index_int.astype(int)
         return self.sey_true[index_int] + index_remainder * self.sey_true_diff[index_int], self.sey_elast[index_int] + index_remainder * self.sey_elast_diff[index_int]
-- 
2.43.0


From 449be5014e58cd689dc3b44e7a550063881d3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 05/61] fix: load the emission table file that was found

---
 sec_emission_model_from_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sec_emission_model_from_file.py b/sec_emission_model_from_file.py
index 0acbe52..abd0d7f 100644
--- a/sec_emission_model_from_file.py
+++ b/sec_emission_model_from_file.py
@@ -100,7 +100,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
             sey_file_real = existing_files[0]
             print('Secondary emission from file %s' % sey_file_real)
 
-            sey_properties = sio.loadmat(sey_file)
+            sey_properties = sio.loadmat(sey_file_real)
 
         energy_eV = sey_properties['energy_eV'].squeeze()
         sey_true = sey_properties['sey_true'].squeeze()
@@ -113,7 +113,7 @@ class SEY_model_from_file(SEY_model_ECLOUD):
         diff_e = np.round(np.diff(energy_eV), 3)
         delta_e = diff_e[0]
         if np.any(diff_e != delta_e):
-            raise ValueError('Energy in file %s is not equally spaced.' % sey_file_real)
+            raise ValueError('Energy in file %s is not equally spaced.' % sey_file)
 
         # sey_diff is needed by the interp function
         # A 0 is appended because this last element is never needed but the array must have the correct shape
-- 
2.43.0


From 9df3ac8f367ae0fd7dc6bfd3acae2e615ee3d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 06/61] fix: flat low energy emission model reflects electrons
 elastically

---
 sec_emission_model_flat_low_ener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sec_emission_model_flat_low_ener.py b/sec_emission_model_flat_low_ener.py
index 7da09ad..53256c0 100644
--- a/sec_emission_model_flat_low_ener.py
+++ b/sec_emission_model_flat_low_ener.py
@@ -66,7 +66,7 @@ def yield_fun2(E, costheta, Emax, del_max, R0):
 
     true_sec = del_max_tilde * (s * x) / (s - 1. + x**s)
 
-    delta = true_sec
+    delta = true_sec.copy()
 
     mask_change = logical_and(delta < R0, E < Emax)
     delta[mask_change] = R0
-- 
2.43.0


From 1f5e0d5e091a3778047fa670024c7f6953fb26ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 07/61] fix: Furman-Pivi true secondaries leave the wall when
 no impact of the step emits more than one

---
 sec_emission_model_furman_pivi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index 50319a9..c6d17c0 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -480,9 +480,6 @@ class SEY_model_furman_pivi():
 
                         N_violations = np.sum(flag_violation)
 
-                # Replace velocities
-                vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
-                    N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
                     n_add_total, En_truesec_eV_add, norm_x_add, norm_y_add, mass)
@@ -492,6 +489,10 @@ class SEY_model_furman_pivi():
                 else:
                     i_seg_new_MPs = None
 
+            # Replace velocities
+            vx_replace[flag_truesec_and_above_zero], vy_replace[flag_truesec_and_above_zero], vz_replace[flag_truesec_and_above_zero] = self.angle_dist_func(
+                N_true_sec, En_truesec_eV, Norm_x[flag_truesec_and_above_zero], Norm_y[flag_truesec_and_above_zero], mass)
+
             # Handle absorbed MPs
             flag_truesec_and_zero = flag_truesec & (n_emit_truesec_MPs == 0)
             nel_replace[flag_truesec_and_zero] = 0.0
-- 
2.43.0


From 66265b6c531aa2890f5f180579b76dc5980ed2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 08/61] fix: Furman-Pivi energy conservation holds for the
 whole event and always terminates

---
 sec_emission_model_furman_pivi.py | 50 +++++++++++++++++--------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/sec_emission_model_furman_pivi.py b/sec_emission_model_furman_pivi.py
index c6d17c0..347277b 100644
--- a/sec_emission_model_furman_pivi.py
+++ b/sec_emission_model_furman_pivi.py
@@ -453,32 +453,38 @@ class SEY_model_furman_pivi():
 
                 # Ensure energy conservation in each event
                 if self.conserve_energy:
-                    En_truesec_eV_extended = np.repeat(En_truesec_eV, n_add[flag_truesec][flag_above_zero])  # Energy of replaced MPs
-                    E_impact_eV_add = np.repeat(E_impact_eV[flag_truesec][flag_above_zero], n_add[flag_truesec][flag_above_zero])  # Energy of new MPs
-                    En_emit_eV_event_add = En_truesec_eV_extended + En_truesec_eV_add  # Total energy emitted in each trusec event
+                    n_add_event = n_add[flag_truesec_and_above_zero]
+                    i_event_add = np.repeat(np.arange(N_true_sec), n_add_event)  # Event of each new MP
+                    nn_event = n_emit_truesec_MPs[flag_truesec_and_above_zero]
+                    E_impact_eV_event = E_impact_eV[flag_truesec_and_above_zero]
+
+                    i_attempt = 0
+                    while True:
+                        # Total energy emitted in each truesec event
+                        En_emit_eV_event = En_truesec_eV + np.bincount(i_event_add, weights=En_truesec_eV_add, minlength=N_true_sec)
+                        flag_violation = (n_add_event > 0) & (En_emit_eV_event > E_impact_eV_event)
+                        if not np.any(flag_violation):
+                            break
+                        flag_violation_add = flag_violation[i_event_add]
+
+                        if i_attempt > 100:
+                            # Very unlikely combination of multiplicity and energy: share the available energy
+                            factor = np.ones(N_true_sec)
+                            factor[flag_violation] = (1. - 1e-12) * E_impact_eV_event[flag_violation] / En_emit_eV_event[flag_violation]
+                            En_truesec_eV *= factor
+                            En_truesec_eV_add *= factor[i_event_add]
+                            break
 
-                    flag_violation = (En_emit_eV_event_add > E_impact_eV_add)  # Violation flag for the new MPs
-                    flag_violation_replace = self.inverse_repeat(flag_violation, repeats=n_add[flag_truesec][flag_above_zero], axis=None)  # Violation flag for the replaced MPs
-
-                    N_violations = np.sum(flag_violation)
-                    while N_violations > 0:
                         # Regenerating energies for the new MPs
-                        En_truesec_eV_add[flag_violation] = self.get_energy_true_sec(
-                            nn=n_emit_truesec_MPs_extended[flag_violation],
-                            E_0=E_impact_eV_add[flag_violation])
+                        En_truesec_eV_add[flag_violation_add] = self.get_energy_true_sec(
+                            nn=nn_event[i_event_add][flag_violation_add],
+                            E_0=E_impact_eV_add[flag_violation_add])
 
                         # Regenerating energies for the replaced MPs
-                        En_truesec_eV[flag_violation_replace] = self.get_energy_true_sec(
-                            nn=n_emit_truesec_MPs_flag_true_sec[flag_above_zero][flag_violation_replace],
-                            E_0=E_impact_eV[flag_truesec][flag_above_zero][flag_violation_replace])
-
-                        En_truesec_eV_extended = np.repeat(En_truesec_eV, n_add[flag_truesec][flag_above_zero])
-                        En_emit_eV_event_add = En_truesec_eV_extended + En_truesec_eV_add
-
-                        flag_violation = (En_emit_eV_event_add > E_impact_eV_add)
-                        flag_violation_replace = self.inverse_repeat(flag_violation, repeats=n_add[flag_truesec][flag_above_zero], axis=None)
-
-                        N_violations = np.sum(flag_violation)
+                        En_truesec_eV[flag_violation] = self.get_energy_true_sec(
+                            nn=nn_event[flag_violation],
+                            E_0=E_impact_eV_event[flag_violation])
+                        i_attempt += 1
 
                 # New velocities
                 vx_new_MPs, vy_new_MPs, vz_new_MPs = self.angle_dist_func(
-- 
2.43.0


From 6f6a7f267497af60222b78d42d900c448403bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 09/61] fix: elastically reflected electrons always leave the
 wall inwards

---
 electron_emission.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/electron_emission.py b/electron_emission.py
index 82c2f02..6a26f3b 100644
--- a/electron_emission.py
+++ b/electron_emission.py
@@ -224,8 +224,10 @@ of generated electrons (https://indico.cern.ch/event/673160/).
 
 
 def specular_velocity(vx_impact, vy_impact, Norm_x, Norm_y, v_impact_n):
-    vx_emit = vx_impact - 2 * v_impact_n * Norm_x
-    vy_emit = vy_impact - 2 * v_impact_n * Norm_y
+    # the velocity can already point inwards (turned back by the fields within the step)
+    v_outwards = np.minimum(v_impact_n, 0.)
+    vx_emit = vx_impact - 2 * v_outwards * Norm_x
+    vy_emit = vy_impact - 2 * v_outwards * Norm_y
     return vx_emit, vy_emit
 
 # Photoelectron energy classes
-- 
2.43.0


From da81efa69f09a8c9926fb7724d560c6676dee825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 10/61] fix: re-initialising a cloud clears the charge of its
 previous macroparticles

---
 MP_system.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MP_system.py b/MP_system.py
index 485c2ce..fd6612b 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -592,4 +592,5 @@ class MP_system:
 
     def init_from_dict(self, dict_MP):
         self.N_mp = 0
+        self.nel_mp[:] = 0.
         self.add_from_file(dict_MP)
-- 
2.43.0


From bd598556b2bd4bd24f002ea1830ffe0f0a6c37ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 11/61] fix: regeneration velocity grid covers only the
 particles of the cloud

---
 MP_system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index fd6612b..e2aaa71 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -272,9 +272,9 @@ class MP_system:
 
             #Assign particle to grid
             #
-            vx_max = max(abs(self.vx_mp))
-            vy_max = max(abs(self.vy_mp))
-            vz_max = max(abs(self.vz_mp))
+            vx_max = np.max(np.abs(self.vx_mp[0:self.N_mp]), initial=0.)
+            vy_max = np.max(np.abs(self.vy_mp[0:self.N_mp]), initial=0.)
+            vz_max = np.max(np.abs(self.vz_mp[0:self.N_mp]), initial=0.)
             if vx_max == 0:
                 vx_max = 1e-5
             if vy_max == 0:
-- 
2.43.0


From 77aaf0e864d25159164795d3065f0cf51efbe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 12/61] fix: regeneration keeps particles on the edge of the
 grid in its outermost cells

---
 MP_system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index e2aaa71..5a8682c 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -307,11 +307,11 @@ class MP_system:
 
             ##
             #% MATLAB-like indices
-            ix_mp = np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x
-            iy_mp = np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y
-            ivx_mp = np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx
-            ivy_mp = np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy
-            ivz_mp = np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz
+            ix_mp = np.clip(np.around(self.x_mp[0:self.N_mp] / Dx_reg) + bias_x, 1, self.Nx_reg)
+            iy_mp = np.clip(np.around(self.y_mp[0:self.N_mp] / Dy_reg) + bias_y, 1, self.Ny_reg)
+            ivx_mp = np.clip(np.around(self.vx_mp[0:self.N_mp] / Dvx_reg) + bias_vx, 1, self.Nvx_reg)
+            ivy_mp = np.clip(np.around(self.vy_mp[0:self.N_mp] / Dvy_reg) + bias_vy, 1, self.Nvy_reg)
+            ivz_mp = np.clip(np.around(self.vz_mp[0:self.N_mp] / Dvz_reg) + bias_vz, 1, self.Nvz_reg)
             #
             #
             #
-- 
2.43.0


From 21da7eda5d85ff98236ca75362425979d6aca930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 13/61] fix: time of last impact is reset for the particles of
 a uniform distribution

---
 MP_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MP_system.py b/MP_system.py
index 5a8682c..aa077e3 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -480,11 +480,11 @@ class MP_system:
                 self.vz_mp[self.N_mp:self.N_mp + Nint_new_MP] = v0 * (rand() - 0.5)
                 self.nel_mp[self.N_mp:self.N_mp + Nint_new_MP] = self.nel_mp_ref
 
-                self.N_mp = int(self.N_mp + Nint_new_MP)
-
                 if self.flag_lifetime_hist:
                     self.t_last_impact[self.N_mp:self.N_mp + Nint_new_MP] = -1
 
+                self.N_mp = int(self.N_mp + Nint_new_MP)
+
     def add_uniform_ele_density(self, n_ele, E_init, x_max, x_min, y_max, y_min):
 
         if x_max is None:
-- 
2.43.0


From 3326fc34643d183ea23cac3b5eedf3c743d614ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 14/61] fix: extracted cloud contains the times of last impact

---
 MP_system.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index aa077e3..ba0838a 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -588,6 +588,8 @@ class MP_system:
             'nel_mp': self.nel_mp[:self.N_mp].copy(),
             'N_mp': self.N_mp,
         }
+        if self.flag_lifetime_hist:
+            dict_MP['t_last_impact'] = self.t_last_impact[:self.N_mp].copy()
         return dict_MP
 
     def init_from_dict(self, dict_MP):
-- 
2.43.0


From 0614ead85ee0fbe9e3846d1d75f5203a84f8ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 15/61] fix: a single macroparticle added to a full cloud is
 refused instead of lost

---
 MP_system.py            | 11 +++++++++++
 gas_ionization_class.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index ba0838a..2117ba9 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -438,6 +438,11 @@ class MP_system:
             erg = np.sum(0.5 / np.abs(self.charge / self.mass) * self.nel_mp[0:self.N_mp] * (self.vx_mp[0:self.N_mp] * self.vx_mp[0:self.N_mp] + self.vy_mp[0:self.N_mp] * self.vy_mp[0:self.N_mp] + self.vz_mp[0:self.N_mp] * self.vz_mp[0:self.N_mp]))
             print('Cloud %s: Done regeneration. N_mp=%d Nel_tot=%1.2e En_tot=%1.2e'%(self.name, self.N_mp, chrg, erg))
 
+    def check_room(self, N_new_MP):
+        if self.N_mp + N_new_MP > len(self.x_mp):
+            raise ValueError('Cloud %s: no room for %d more macroparticles (N_mp=%d, N_mp_max=%d)'%(
+                self.name, N_new_MP, self.N_mp, len(self.x_mp)))
+
     def add_uniform_MP_distrib(self, DNel, E_init, x_max, x_min, y_max, y_min):
 
             if x_max is None:
@@ -456,6 +461,8 @@ class MP_system:
             rest = N_new_MP - Nint_new_MP
             Nint_new_MP = Nint_new_MP + int(rand() < rest)
 
+            self.check_room(Nint_new_MP)
+
             if Nint_new_MP > 0:
 
                 x_temp = (x_max - x_min) * rand(Nint_new_MP) + x_min
@@ -516,6 +523,8 @@ class MP_system:
             y_temp = y_temp[flag_keep]
             Nint_new_MP = len(x_temp)
 
+            self.check_room(Nint_new_MP)
+
             self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = x_temp
             #Be careful to the indexing when translating to python
             self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = y_temp
@@ -536,6 +545,7 @@ class MP_system:
             return MP_positions(self.x_mp[:self.N_mp], self.y_mp[:self.N_mp], self.z_mp[:self.N_mp])
 
     def add_new_MPs(self, N_new_MP, nel_new_mp, x, y, z, vx, vy, vz, t_last_impact):
+        self.check_room(N_new_MP)
         N_mp_old = self.N_mp
         N_mp_new = self.N_mp + N_new_MP
         self.x_mp[N_mp_old:N_mp_new] = x
@@ -559,6 +569,7 @@ class MP_system:
             dict_MP_init = filename_MPs
 
         Nint_new_MP = int(dict_MP_init['N_mp'])
+        self.check_room(Nint_new_MP)
 
         self.x_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['x_mp'])
         self.y_mp[self.N_mp:self.N_mp + Nint_new_MP] = np.squeeze(dict_MP_init['y_mp'])
diff --git a/gas_ionization_class.py b/gas_ionization_class.py
index 096495a..fb4de94 100644
--- a/gas_ionization_class.py
+++ b/gas_ionization_class.py
@@ -97,6 +97,7 @@ class residual_gas_ionization:
         Nint_new_MP = floor(N_new_MP)
         rest = N_new_MP - Nint_new_MP
         Nint_new_MP = int(Nint_new_MP) + int(rand() < rest)
+        MP_e.check_room(Nint_new_MP)
 
         if Nint_new_MP > 0:
             unif_flag = (rand(Nint_new_MP) < self.unif_frac)
-- 
2.43.0


From bfd8ae7c07d5f802edff073d67d0bbfbf4c7bd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 16/61] fix: strong field tracker recognises the analytic
 quadrupole by its name

---
 dynamics_strong_B_generalized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 3abcf84..15b2dfa 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file is 'analytic_qaudrupole_unit_grad':
+        elif B_map_file == 'analytic_qaudrupole_unit_grad':
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From a3ed70a4b43d7a1b07f30712f0ebb04e3e77ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 17/61] fix: skew and normal multipole components of different
 number are refused

---
 dynamics_Boris_multipole.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dynamics_Boris_multipole.py b/dynamics_Boris_multipole.py
index e024762..a075106 100644
--- a/dynamics_Boris_multipole.py
+++ b/dynamics_Boris_multipole.py
@@ -75,9 +75,11 @@ class pusher_Boris_multipole():
         # B_field are field strengths at x=1 m, y=0
         factorial = np.array([math.factorial(ii) for ii in range(len(B_multip))], dtype=float)
         self.B_field = np.array(B_multip, dtype=float) / factorial
-        if B_skew is None:
+        if B_skew is None or len(B_skew) == 0:
             self.B_field_skew = np.zeros_like(self.B_field, dtype=float)
         else:
+            if len(B_skew) != len(B_multip):
+                raise ValueError('B_skew and B_multip should have the same length!')
             self.B_field_skew = np.array(B_skew, dtype=float) / factorial
 
         self.B0x = B0x
-- 
2.43.0


From 6df5a34efd02353d94d73b10ad9e616cdc879dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 18/61] fix: secondary beams can be used without a progress
 file

---
 init.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 0485389..c3cfc49 100644
--- a/init.py
+++ b/init.py
@@ -248,6 +248,11 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                     # in case sb_par.beam_long_prof_file is -1
                     sbeam_long_prof_file_path = sb_par.beam_long_prof_file
 
+                if cc.progress_path is not None:
+                    sec_progress_mapgen_file = cc.progress_path + ('_mapgen_sec_%d' % ii)
+                else:
+                    sec_progress_mapgen_file = None
+
                 sec_beams_list.append(beatim.beam_and_timing(sb_par.flag_bunched_beam, sb_par.fact_beam, sb_par.coast_dens, sb_par.q_part, sb_par.beam_field_file, cc.lam_th,
                                                              b_spac=sb_par.b_spac, sigmaz=sb_par.sigmaz, t_offs=sb_par.t_offs, filling_pattern_file=sb_par.filling_pattern_file, Dt=cc.Dt, t_end=cc.t_end,
                                                              beam_long_prof_file=sbeam_long_prof_file_path, Dh_beam_field=sb_par.Dh_beam_field, f_telescope_beam=sb_par.f_telescope_beam,
@@ -255,7 +260,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                                              chamb=chamb, sigmax=sb_par.sigmax, sigmay=sb_par.sigmay,
                                                              x_beam_pos=sb_par.x_beam_pos, y_beam_pos=sb_par.y_beam_pos, save_beam_field_file_as=sb_par.save_beam_field_file_as,
                                                              flag_secodary_beam=True, t_primary_beam=beamtim.t,
-                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=(cc.progress_path + ('_mapgen_sec_%d' % ii))))
+                                                             Nx=sb_par.Nx, Ny=sb_par.Ny, nimag=sb_par.nimag, progress_mapgen_file=sec_progress_mapgen_file))
     else:
         beamtim = None
         sec_beams_list = []
-- 
2.43.0


From 5b2f8d278759c8991fef4022f8d5d33303fa3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 19/61] fix: longitudinal profile of a secondary beam is
 searched under its own name

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index c3cfc49..8d52ad1 100644
--- a/init.py
+++ b/init.py
@@ -240,7 +240,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                 try:
                     if os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file
-                    elif os.path.isfile(pyecl_input_folder + '/' + b_par.beam_long_prof_file + '.mat'):
+                    elif os.path.isfile(pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'):
                         sbeam_long_prof_file_path = pyecl_input_folder + '/' + sb_par.beam_long_prof_file + '.mat'
                     else:
                         sbeam_long_prof_file_path = sb_par.beam_long_prof_file
-- 
2.43.0


From fabde507abf47bf004db3f1feddbff781460c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:10 +0000
Subject: [PATCH 20/61] fix: filling pattern file may contain a single bunch

---
 beam_and_timing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_and_timing.py b/beam_and_timing.py
index 1dc8fe2..415f5f0 100644
--- a/beam_and_timing.py
+++ b/beam_and_timing.py
@@ -103,9 +103,9 @@ class beam_and_timing:
             if type(filling_pattern_file) is str:
                 if '.mat' in filling_pattern_file:
                     dict_fillp = sio.loadmat(filling_pattern_file)
-                    ppb_vect = np.squeeze(dict_fillp['ppb_vect'])
+                    ppb_vect = np.atleast_1d(np.squeeze(dict_fillp['ppb_vect']))
                     if 'sigmaz_vect' in list(dict_fillp.keys()):
-                        sigmaz_vect = np.squeeze(dict_fillp['sigmaz_vect'])
+                        sigmaz_vect = np.atleast_1d(np.squeeze(dict_fillp['sigmaz_vect']))
                 else:
                     raise ValueError('Input of filling scheme via txt files is discontinued!')
                     # Incompatible with Python3 because of the exec                   
-- 
2.43.0


From a22c274ef38a4e3988ac7479ba961aa0c2ad73e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 21/61] fix: Bassetti-Erskine field of a round beam

---
 BassErsk.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 53a7601..5bcc6a0 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -17,7 +17,19 @@ def BassErsk(xin, yin, sigmax, sigmay):
 
     eps0 = 8.854187817620e-12
 
-    if sigmax > sigmay:
+    if abs(sigmax - sigmay) < 1e-6 * sigmax:
+        # Round beam
+
+        r2 = x * x + y * y
+        if r2 > 0:
+            fact = -expm1(-r2 / (2 * sigmax * sigmay)) / (2 * pi * eps0 * r2)
+        else:
+            fact = 0.
+
+        Ex = fact * xin
+        Ey = fact * yin
+
+    elif sigmax > sigmay:
 
         S = sqrt(2 * (sigmax * sigmax - sigmay * sigmay))
         factBE = 1 / (2 * eps0 * sqrt(pi) * S)
-- 
2.43.0


From 89fb19b920468531609b96e804f1b6013549ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 22/61] fix: image terms of the Bassetti-Erskine field in a
 chamber with y_aper larger than x_aper

---
 BassErsk.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/BassErsk.py b/BassErsk.py
index 5bcc6a0..61c6c63 100644
--- a/BassErsk.py
+++ b/BassErsk.py
@@ -60,7 +60,10 @@ def ImageTerms(x, y, a, b, x0, y0, nimag):
 
     eps0 = 8.854187817620e-12
 
-    if abs((a - b) / a) > 1e-3:
+    if abs((a - b) / a) > 1e-3 and b > a:
+        # Exchange the planes to have the longer semi-axis first
+        Ey, Ex = ImageTerms(y, x, b, a, y0, x0, nimag)
+    elif abs((a - b) / a) > 1e-3:
         g = sqrt(a * a - b * b)
 
         z = x + 1j * y
-- 
2.43.0


From 663ce7685258f2c34cae7d432a3d62a18146ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 23/61] fix: keep the last recorded step of the electron
 density probes in the output

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 11aacca..2e7df76 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -894,7 +894,7 @@ class pyecloud_saver:
             dict_sbs_data['En_electric_eV_time'] = self.En_electric_eV_time[:self.i_last_save + 1]
 
         if self.flag_el_dens_probes:
-            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save]
+            dict_sbs_data['el_dens_at_probes'] = self.el_dens_at_probes[:, :self.i_last_save + 1]
 
         for kk in list(self.sbs_custom_data.keys()):
             dict_sbs_data[kk] = self.sbs_custom_data[kk][:self.i_last_save + 1]
-- 
2.43.0


From 7e7b1f7354c89df386299486440d30a6966b75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 24/61] fix: do not repeat the detailed density profile of the
 previous passage for an empty cloud

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 2e7df76..3d26dc8 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -378,6 +378,8 @@ class pyecloud_saver:
     def _pass_by_pass_data_save(self, MP_e, impact_man, beamtim, buildup_sim):
         #update histograms
         self.nel_hist_line = 0.0 * self.nel_hist_line
+        if self.flag_hist_det:
+            self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
         if MP_e.N_mp > 0:
             histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp], MP_e.nel_mp[0:MP_e.N_mp], impact_man.bias_x_hist, impact_man.Dx_hist, self.nel_hist_line)
 
@@ -388,8 +390,6 @@ class pyecloud_saver:
                 mask_det_hist_y = np.logical_and(MP_e.y_mp[0:MP_e.N_mp] > self.y_min_hist_det, MP_e.y_mp[0:MP_e.N_mp] < self.y_max_hist_det)
                 mask_det_hist = np.logical_and(mask_det_hist_x, mask_det_hist_y)
 
-                self.nel_hist_det_line = 0.0 * self.nel_hist_det_line
-
                 if np.sum(mask_det_hist) > 0:
                     #print 'here 2'
                     histf.compute_hist(MP_e.x_mp[0:MP_e.N_mp][mask_det_hist], MP_e.nel_mp[0:MP_e.N_mp][mask_det_hist],
-- 
2.43.0


From 169d43071a9f4c2b2d5aaa5b182f409f7a45d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 25/61] fix: use the histogram settings of each cloud for its
 impacts

---
 init.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/init.py b/init.py
index 8d52ad1..aebb3f3 100644
--- a/init.py
+++ b/init.py
@@ -411,16 +411,16 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             print('Warning: You cannot enable flag_hist_impact_seg for an ellip chamber --> disabled!')
             flag_seg = False
 
-        if cc.flag_lifetime_hist:
-            if cc.Nbin_lifetime_hist is None or cc.lifetime_hist_max is None or cc.Dt_lifetime_hist is None:
+        if thiscloud.flag_lifetime_hist:
+            if thiscloud.Nbin_lifetime_hist is None or thiscloud.lifetime_hist_max is None or thiscloud.Dt_lifetime_hist is None:
                 raise inp_spec.PyECLOUD_ConfigException(
                         'If flag_lifetime_hist is True then all the histogram parameters must be specified')
 
         impact_man = imc.impact_management(chamb, sey_mod,
-            thiscloud.Dx_hist, thiscloud.scrub_en_th, cc.Nbin_En_hist, cc.En_hist_max,
-            cc.Nbin_lifetime_hist, cc.lifetime_hist_max, cc.flag_lifetime_hist,
+            thiscloud.Dx_hist, thiscloud.scrub_en_th, thiscloud.Nbin_En_hist, thiscloud.En_hist_max,
+            thiscloud.Nbin_lifetime_hist, thiscloud.lifetime_hist_max, thiscloud.flag_lifetime_hist,
             flag_seg=flag_seg, flag_En_hist_seg=thiscloud.flag_En_hist_seg,
-            cos_angle_width=cc.cos_angle_width)
+            cos_angle_width=thiscloud.cos_angle_width)
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
-- 
2.43.0


From df83181294b50e1b88767975e030409c8827d786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 26/61] fix: use the number of substeps of each cloud in the
 multipole tracker

---
 init.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/init.py b/init.py
index aebb3f3..7ed2ac9 100644
--- a/init.py
+++ b/init.py
@@ -515,7 +515,7 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
-            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=cc.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
+            dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
                         B0x=cc.B0x, B0y=cc.B0y, B0z=cc.B0z)
         else:
             raise inp_spec.PyECLOUD_ConfigException("track_method should be 'Boris' or 'StrongBdip' or 'StrongBgen' or 'BorisMultipole'")
-- 
2.43.0


From 4d6337c75395c3ba448f27c56ebbbc82937fe3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 27/61] fix: save the bins that are used for the impact angle
 histogram

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 3d26dc8..bc3221e 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -1155,7 +1155,7 @@ class pyecloud_saver:
         if flag_cos_angle_hist:
             N_angles = int(1. / cos_angle_width) + 1
             self.cos_angle_hist = []
-            self.xg_hist_cos_angle = np.linspace(0., 1., N_angles)
+            self.xg_hist_cos_angle = cos_angle_width * np.arange(N_angles)
         else:
             self.cos_angle_hist = -1
             self.xg_hist_cos_angle = -1
-- 
2.43.0


From 046646e9f98c51afc81398b7115e678c0e1733ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 28/61] fix: save and restore the fields of every PyPIC mode
 and of the EM tracking in the simulation state

---
 buildup_simulation.py                 | 11 ++----
 pyecloud_saver.py                     | 26 ++------------
 space_charge_class.py                 | 51 +++++++++++++++++++++++++++
 space_charge_class_electromagnetic.py |  2 ++
 4 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index d345819..af53bc2 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -485,6 +485,7 @@ class BuildupSimulation(object):
             dict_state = pickle.load(fid)
 
         self.beamtim = dict_state["beamtim"]
+        PyPICobj = self.spacech_ele.PyPICobj
         self.spacech_ele = dict_state["spacech_ele"]
         self.t_sc_ON = dict_state["t_sc_ON"]
         self.flag_presence_sec_beams = dict_state["flag_presence_sec_beams"]
@@ -512,14 +513,8 @@ class BuildupSimulation(object):
                     filen_outp_root + filen_outp_ext + ".mat"
                 )
 
-        print("Restoring PyPIC LU object...")
-        self.spacech_ele.PyPICobj.build_sparse_solver()
-
-        if self.spacech_ele.flag_em_tracking:
-            print("Restoring PyPIC Ax, Ay and As state objects...")
-            self.spacech_ele.state_Ax = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_Ay = self.spacech_ele.PyPICobj.get_state_object()
-            self.spacech_ele.state_As = self.spacech_ele.PyPICobj.get_state_object()
+        print("Restoring PyPIC objects...")
+        self.spacech_ele.restore_fields(PyPICobj)
 
         print("Done reload.")
         return dict_state
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index bc3221e..7a3a430 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -955,22 +955,7 @@ class pyecloud_saver:
 
         if self.flag_last_cloud:
 
-            temp_luobj = spacech_ele.PyPICobj.luobj
-            spacech_ele.luobj = None
-            spacech_ele.PyPICobj.luobj = None
-
-            if spacech_ele.flag_em_tracking:
-                temp_state_Ax = spacech_ele.state_Ax
-                temp_state_Ay = spacech_ele.state_Ay
-                temp_state_As = spacech_ele.state_As
-                temp_state_Ax_old = spacech_ele.state_Ax_old
-                temp_state_Ay_old = spacech_ele.state_Ay_old
-                spacech_ele.state_Ax = None
-                spacech_ele.state_Ay = None
-                spacech_ele.state_As = None
-                spacech_ele.state_Ax_old = None
-                spacech_ele.state_Ay_old = None
-
+            temp_pic_objects = spacech_ele.detach_pic_objects()
 
             # remove savers
             temp_saver_list = []
@@ -999,14 +984,7 @@ class pyecloud_saver:
             for cloud, saver in zip(cloud_list, temp_saver_list):
                 cloud.pyeclsaver = saver
 
-            spacech_ele.PyPICobj.luobj = temp_luobj
-
-            if spacech_ele.flag_em_tracking:
-                spacech_ele.state_Ax = temp_state_Ax
-                spacech_ele.state_Ay = temp_state_Ay
-                spacech_ele.state_As = temp_state_As
-                spacech_ele.state_Ax_old = temp_state_Ax_old
-                spacech_ele.state_Ay_old = temp_state_Ay_old
+            spacech_ele.attach_pic_objects(temp_pic_objects)
 
             print('Save simulation state in: ' + outfile)
 
diff --git a/space_charge_class.py b/space_charge_class.py
index 9189e30..53026df 100644
--- a/space_charge_class.py
+++ b/space_charge_class.py
@@ -57,7 +57,23 @@ from scipy.constants import e as qe
 na = lambda x: np.array([x])
 
 
+def _grids_of(pic):
+    # all the grids that hold the fields of a PyPIC object (several in the case of nested grids)
+    if hasattr(pic, 'pic_list'):
+        pic = pic.pic_list[-1]
+    grids = []
+    while hasattr(pic, 'pic_internal'):
+        grids.append(pic.pic_internal)
+        pic = pic.pic_external
+    return grids + [pic]
+
+
 class space_charge:
+
+    # attributes holding PyPIC objects
+    pic_attributes = ('PyPICobj',)
+    field_names = ('rho', 'phi', 'efx', 'efy')
+
     #@profile
 
     def __init__(self, chamb, Dh, Dt_sc=None, PyPICmode='FiniteDifferences_ShortleyWeller' , sparse_solver='scipy_slu',
@@ -202,6 +218,41 @@ class space_charge:
     def compute_spchg_efield_from_rho(self, rho, flag_verbose=True):
         self.PyPICobj.solve(rho=rho, flag_verbose=flag_verbose)
 
+    def detach_pic_objects(self):
+        # PyPIC objects can in general not be pickled: only the fields that they hold are kept
+        pic_objects = {}
+        self.saved_fields = {}
+        for name in self.pic_attributes:
+            pic = getattr(self, name)
+            pic_objects[name] = pic
+            if pic is not None:
+                self.saved_fields[name] = [
+                    {ff: np.array(getattr(grid, ff)) for ff in self.field_names} for grid in _grids_of(pic)]
+            setattr(self, name, None)
+        return pic_objects
+
+    def attach_pic_objects(self, pic_objects):
+        for name in self.pic_attributes:
+            setattr(self, name, pic_objects[name])
+        del self.saved_fields
+
+    def restore_fields(self, PyPICobj):
+        # put the fields that were kept in detach_pic_objects in the given PyPIC object
+        for name in self.pic_attributes:
+            if name not in self.saved_fields:
+                setattr(self, name, None)
+                continue
+            pic = PyPICobj if name == 'PyPICobj' else PyPICobj.get_state_object()
+            grids = _grids_of(pic)
+            shapes = [grid.rho.shape for grid in grids]
+            if shapes != [fields['rho'].shape for fields in self.saved_fields[name]]:
+                raise ValueError('The saved fields do not correspond to the space charge grid of the simulation!')
+            for grid, fields in zip(grids, self.saved_fields[name]):
+                for ff in self.field_names:
+                    setattr(grid, ff, fields[ff])
+            setattr(self, name, pic)
+        del self.saved_fields
+
     def get_sc_eletric_field(self, MP_e):
         Ex_sc_n, Ey_sc_n = self.PyPICobj.gather(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp])
         return Ex_sc_n, Ey_sc_n
diff --git a/space_charge_class_electromagnetic.py b/space_charge_class_electromagnetic.py
index 83de810..d2f4e78 100644
--- a/space_charge_class_electromagnetic.py
+++ b/space_charge_class_electromagnetic.py
@@ -73,6 +73,8 @@ na = lambda x: np.array([x])
 
 class space_charge_electromagnetic(space_charge, object):
 
+    pic_attributes = ('PyPICobj', 'state_Ax', 'state_Ay', 'state_Ax_old', 'state_Ay_old')
+
     def __init__(self, chamb, Dh, gamma, Dt_sc=None, PyPICmode='FiniteDifferences_ShortleyWeller' , sparse_solver='scipy_slu',
                  f_telescope=None, target_grid=None, N_nodes_discard=None, N_min_Dh_main=None, Dh_U_eV=None):
 
-- 
2.43.0


From d6e9910f057b49e04beae26724618c76940ad939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 29/61] fix: keep the state of the cross-ionization in the
 simulation state

---
 buildup_simulation.py |  1 +
 pyecloud_saver.py     | 15 ++++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index af53bc2..82cedb1 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -492,6 +492,7 @@ class BuildupSimulation(object):
         self.sec_beams_list = dict_state["sec_beams_list"]
 
         self.flag_multiple_clouds = dict_state["flag_multiple_clouds"]
+        self.cross_ion = dict_state["cross_ion"]
 
         for i_cloud, new_cloud in enumerate(self.cloud_list):
             new_pyeclsaver = new_cloud.pyeclsaver
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 7a3a430..b4732a0 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -268,7 +268,7 @@ class pyecloud_saver:
 
         # Check for simulation save state
         self._sim_state_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                             sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                             sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
         # Check for save video charge density
         self._rho_video_save(spacech_ele, beamtim, rho_cloud)
@@ -312,7 +312,7 @@ class pyecloud_saver:
 
             # Check for checkpoint save state
             self._checkpoint_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                  sec_beams_list, self.flag_multiple_clouds, cloud_list)
+                                  sec_beams_list, self.flag_multiple_clouds, cloud_list, cross_ion)
 
             self._copy_main_outp_save(beamtim)
 
@@ -525,7 +525,7 @@ class pyecloud_saver:
                 os.makedirs(self.checkpoint_folder)
 
     def _checkpoint_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                         sec_beams_list, flag_multiple_clouds, cloud_list):
+                         sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion):
         # First check if it is time to save a checkpoint
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
@@ -533,7 +533,7 @@ class pyecloud_saver:
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outpath)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -951,7 +951,7 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outfile):
 
         if self.flag_last_cloud:
 
@@ -971,6 +971,7 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
+                'cross_ion': cross_ion,
                 't_last_En_hist': self.t_last_En_hist}
 
             if self.flag_lifetime_hist:
@@ -989,7 +990,7 @@ class pyecloud_saver:
             print('Save simulation state in: ' + outfile)
 
     def _sim_state_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                        sec_beams_list, flag_multiple_clouds, cloud_list):
+                        sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion):
         #Simulation state save
         if self.flag_save_simulation_state:
             if self.i_obs_sim < self.N_obs_sim:
@@ -998,7 +999,7 @@ class pyecloud_saver:
                     outpath = self.folder_outp + '/' + filename_simulation_state
 
                     self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                                sec_beams_list, flag_multiple_clouds, cloud_list, outpath)
+                                                sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outpath)
 
                     self.i_obs_sim = self.i_obs_sim + 1
 
-- 
2.43.0


From 59707217b0bde533bd3712b9d412d3b190764b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 30/61] fix: complete the time step in which the loaded
 simulation state was saved

---
 buildup_simulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 82cedb1..9e96bf8 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -517,6 +517,11 @@ class BuildupSimulation(object):
         print("Restoring PyPIC objects...")
         self.spacech_ele.restore_fields(PyPICobj)
 
+        # The state is saved before the end of a time step: complete it
+        self._MP_cleaning_and_regenerations(
+            self.beamtim, skip_MP_cleaning=False, skip_MP_regen=False
+        )
+
         print("Done reload.")
         return dict_state
 
-- 
2.43.0


From c9631abf833a6f7a44601fc610e5726ac880344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 31/61] fix: resume the recorded data from the checkpoint and
 not from the output file

---
 buildup_simulation.py |   5 +-
 pyecloud_saver.py     | 159 ++++++++++--------------------------------
 2 files changed, 37 insertions(+), 127 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 9e96bf8..9a8b49e 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -541,8 +541,7 @@ class BuildupSimulation(object):
             load_from_folder=load_from_folder,
         )
 
-        for cloud in self.cloud_list:
-            cloud.pyeclsaver.load_from_output(last_t=self.beamtim.tt_curr)
+        for cloud, recorded_data in zip(self.cloud_list, dict_state["recorded_data"]):
+            cloud.pyeclsaver.set_recorded_data(recorded_data)
             cloud.pyeclsaver.i_checkp = i_checkp + 1
             cloud.pyeclsaver.t_last_checkp = self.beamtim.tt_curr
-            cloud.pyeclsaver.t_last_En_hist = dict_state["t_last_En_hist"]
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index b4732a0..54b7ebe 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -58,7 +58,6 @@ import subprocess
 from . import hist_for as histf
 import time
 from scipy.constants import e as qe
-from . import myloadmat_to_obj as mlm
 import shutil
 try:
     # cPickle is faster in python2
@@ -70,6 +69,29 @@ except ImportError:
 
 class pyecloud_saver:
 
+    # What has been recorded during the simulation (needed to resume it)
+    recorded_data = [
+        # step by step
+        'i_last_save', 't_last_save', 't', 'lam_t_array', 'Nel_timep', 'Nel_imp_time', 'Nel_emit_time',
+        'En_imp_eV_time', 'En_emit_eV_time', 'En_kin_eV_time', 'En_electric_eV_time', 'cen_density',
+        'el_dens_at_probes', 'N_mp_time', 'nel_mp_ref_time', 'Nel_cross_ion', 'N_mp_cross_ion',
+        'DN_cross_ion', 'sbs_custom_data', 'Nel_impact_last_step_group', 'Nel_emit_last_step_group',
+        'En_imp_last_step_group_eV', 'En_emit_last_step_group_eV',
+        # pass by pass
+        't_hist', 'nel_hist', 'nel_hist_det', 'nel_impact_hist_tot', 'nel_impact_hist_scrub',
+        'energ_eV_impact_hist', 'nel_hist_impact_seg', 'nel_hist_emit_seg', 'energ_eV_impact_seg',
+        'N_mp_impact_pass', 'N_mp_corrected_pass', 'N_mp_pass', 'N_mp_ref_pass', 'pbp_custom_data',
+        # energy, angle and lifetime histograms
+        't_last_En_hist', 't_En_hist', 'En_hist', 'En_hist_seg', 'all_Ekin_hist', 'cos_angle_hist',
+        't_last_lifetime_hist', 't_lifetime_hist', 'lifetime_hist',
+        # space charge
+        't_sc_video', 'U_sc_eV',
+        # extracted emission curves and energy distributions
+        'sey_test_E_impact_eV', 'sey_test_cos_theta', 'sey_test_deltas',
+        'ene_dist_test_cos_theta', 'ene_dist_test_E_impact_eV', 'emit_ene_dist_test',
+        # counters of the other files
+        'i_obs', 'i_obs_sim', 't_last_copy']
+
     def __init__(self, logfile_path):
         print('Starting pyecloud_saver init.')
         self.logfile_path = logfile_path
@@ -533,7 +555,8 @@ class pyecloud_saver:
                 outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                                            sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outpath)
+                                            sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outpath,
+                                            keep_recorded_data=True)
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
@@ -573,124 +596,12 @@ class pyecloud_saver:
             if (beamtim.tt_curr - self.t_last_copy >= self.copy_main_outp_DT):
                 self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-    def load_from_output(self, last_t=None):
-
-        if self.step_by_step_custom_observables is not None:
-            raise ValueError('Not implemented! Sorry!')
+    def get_recorded_data(self):
+        return {name: getattr(self, name) for name in self.recorded_data if hasattr(self, name)}
 
-        if self.copy_main_outp_folder is not None:
-            load_output_folder = self.copy_main_outp_folder
-        else:
-            load_output_folder = self.folder_outp
-
-        # restore the Pyecltest.mat up to last t
-        ob = mlm.myloadmat_to_obj(load_output_folder + '/' + self.fname_only_main_outp)
-        dict_history = mlm.obj_to_dict(ob)
-
-        idx_t = (np.abs(dict_history['t'] - last_t)).argmin()  # index closest to last_t
-        idx_t_hist = (np.abs(dict_history['t_hist'] - last_t)).argmin()
-        idx_t_sc_video = (np.abs(dict_history['t_sc_video'] - last_t)).argmin()
-
-        # Delete everything in Pyecltest.mat recorded after the last checkpoint
-        saved_every_timestep_list = ['En_emit_eV_time',
-                                     'En_imp_eV_time',
-                                     'En_kin_eV_time',
-                                     'Nel_emit_time',
-                                     'Nel_imp_time',
-                                     'Nel_timep',
-                                     'cen_density',
-                                     'lam_t_array',
-                                     'N_mp_time',
-                                     'nel_mp_ref_time',
-                                     'Nel_cross_ion',
-                                     'N_mp_cross_ion',
-                                     'DN_cross_ion',
-                                     'En_electric_eV_time',
-                                     't']
-
-        saved_every_passage_list = ['En_hist',
-                                    'all_Ekin_hist',
-                                    't_En_hist',
-                                    'N_mp_corrected_pass',
-                                    'N_mp_impact_pass',
-                                    'N_mp_pass',
-                                    'N_mp_ref_pass',
-                                    'energ_eV_impact_hist',
-                                    'energ_eV_impact_seg',
-                                    'nel_hist',
-                                    'nel_hist_det',
-                                    'nel_hist_impact_seg',
-                                    'nel_hist_emit_seg',
-                                    'nel_impact_hist_scrub',
-                                    'nel_impact_hist_tot',
-                                    'cos_angle_hist',
-                                    't_hist'
-                                    'lifetime_hist'
-                                    't_lifetime_hist']
-
-        not_time_dependent_list = ['xg_hist',
-                                   'xg_hist_det',
-                                   'En_g_hist',
-                                   'b_spac',
-                                   't_sec_beams',
-                                   'sec_beam_profiles',
-                                   'x_el_dens_probes',
-                                   'y_el_dens_probes',
-                                   'r_el_dens_probes',
-                                   'xg_hist_cos_angle',
-                                   'el_dens_at_probes',
-                                   'dec_fact_out',
-                                   'chamber_area',
-                                   'sey_test_del_true_mat',
-                                   'sey_test_E_impact_eV',
-                                   'sey_test_del_elast_mat',
-                                   'del_rediff_mat',
-                                   'sey_test_cos_theta',
-                                   'ene_dist_test_cos_theta',
-                                   'ene_dist_test_E_impact_eV',
-                                   'emit_ene_dist_test',
-                                   'U_sc_eV'
-                                   ]
-
-        if self.flag_lifetime_hist:
-            not_time_dependent_list.append('lifetime_g_hist')
-
-        should_be_list_list = ['U_sc_eV',
-                               'x_el_dens_probes',
-                               'y_el_dens_probes',
-                               'r_el_dens_probes'
-                               ]
-
-        dict_restored = {}
-        for var in saved_every_timestep_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var]
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t]
-        self.i_last_save = len(dict_restored['Nel_timep']) - 1
-
-        for var in saved_every_passage_list:
-            if var in list(dict_history.keys()):
-                if dict_history[var].shape == np.array(0).shape:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var][: idx_t_hist + 1].tolist()
-
-        for var in not_time_dependent_list:
-            if var in list(dict_history.keys()):
-                if var in should_be_list_list:
-                    dict_restored[var] = dict_history[var].tolist()
-                else:
-                    dict_restored[var] = dict_history[var]
-
-        # Treating t_sc_video separately because of different indicies
-        if 't_sc_video' in list(dict_history.keys()):
-            dict_restored['t_sc_video'] = dict_history['t_sc_video'][: idx_t_sc_video + 1].tolist()
-
-        # Restore this pyecloud_saver object with values from dict_restored
-        for var in list(dict_restored.keys()):
-            setattr(self, var, dict_restored[var])
+    def set_recorded_data(self, data):
+        for name in data:
+            setattr(self, name, data[name])
 
     def _stepbystep_check_for_data_resize(self):
         if self.i_last_save >= (len(self.t) - 1):
@@ -951,7 +862,8 @@ class pyecloud_saver:
             self.i_obs_sim = 0
 
     def _sim_state_single_save(self, beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
-                               sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outfile):
+                               sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outfile,
+                               keep_recorded_data=False):
 
         if self.flag_last_cloud:
 
@@ -971,11 +883,10 @@ class pyecloud_saver:
                 'sec_beams_list': sec_beams_list,
                 'flag_multiple_clouds': self.flag_multiple_clouds,
                 'cloud_list': cloud_list,
-                'cross_ion': cross_ion,
-                't_last_En_hist': self.t_last_En_hist}
+                'cross_ion': cross_ion}
 
-            if self.flag_lifetime_hist:
-                dict_state['t_last_lifetime_hist'] = self.t_last_lifetime_hist
+            if keep_recorded_data:
+                dict_state['recorded_data'] = [saver.get_recorded_data() for saver in temp_saver_list]
 
             with open(outfile, 'wb') as fid:
                 # use best protocol available
-- 
2.43.0


From 4e175bbd10f76c58fd273cda53ef56e66b94a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 32/61] fix: save the state also when the configuration
 contains functions

---
 buildup_simulation.py |  1 +
 pyecloud_saver.py     | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 9a8b49e..2f84458 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -503,6 +503,7 @@ class BuildupSimulation(object):
 
             # if reset_pyeclsaver or cloud.pyeclsaver is None:
             cloud.pyeclsaver = new_pyeclsaver
+            cloud.config_dict = new_cloud.config_dict
 
             if force_disable_save_simulation_state:
                 cloud.pyeclsaver.flag_save_simulation_state = False
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 54b7ebe..37567e5 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -869,11 +869,14 @@ class pyecloud_saver:
 
             temp_pic_objects = spacech_ele.detach_pic_objects()
 
-            # remove savers
+            # remove savers and configurations (the latter can contain functions)
             temp_saver_list = []
+            temp_config_list = []
             for cloud in cloud_list:
                 temp_saver_list.append(cloud.pyeclsaver)
                 cloud.pyeclsaver = 'removed'
+                temp_config_list.append(cloud.config_dict)
+                cloud.config_dict = 'removed'
 
             dict_state = {
                 'beamtim': beamtim,
@@ -892,9 +895,10 @@ class pyecloud_saver:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
 
-            # put back savers
-            for cloud, saver in zip(cloud_list, temp_saver_list):
+            # put back savers and configurations
+            for cloud, saver, config_dict in zip(cloud_list, temp_saver_list, temp_config_list):
                 cloud.pyeclsaver = saver
+                cloud.config_dict = config_dict
 
             spacech_ele.attach_pic_objects(temp_pic_objects)
 
-- 
2.43.0


From 31a8c3a26490003db5a71e92ea2b86e81d53d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 33/61] fix: never leave the checkpoint folder without one
 complete checkpoint

---
 buildup_simulation.py | 12 +++++-------
 pyecloud_saver.py     | 26 ++++++++++++++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 2f84458..b889c36 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -54,6 +54,7 @@
 
 
 from . import init as init
+from .pyecloud_saver import list_checkpoints
 import pickle
 import numpy as np
 import os
@@ -113,20 +114,17 @@ class BuildupSimulation(object):
         # Checking if there are saved checkpoints
         if self.checkpoint_folder is not None:
             if os.path.isdir(self.checkpoint_folder):
-                if len(os.listdir(self.checkpoint_folder)) == 1:
+                checkpoints = list_checkpoints(self.checkpoint_folder)
+                if len(checkpoints) > 0:
                     print("Loading from checkpoint...")
                     # Selecting latest checkpoint
-                    checkpoint = os.listdir(self.checkpoint_folder)[0]
+                    _, checkpoint = checkpoints[-1]
                     self.load_checkpoint(
                         filename_simulation_checkpoint=checkpoint,
                         load_from_folder=self.checkpoint_folder,
                     )
-                elif len(os.listdir(self.checkpoint_folder)) == 0:
-                    print("No checkpoint found, starting new simulation...")
                 else:
-                    raise ValueError(
-                        "More than one checkpoint found in %s" % self.checkpoint_folder
-                    )
+                    print("No checkpoint found, starting new simulation...")
 
     def run(self, t_end_sim=None):
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 37567e5..5697099 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -54,6 +54,7 @@
 import scipy.io as sio
 import numpy as np
 import os
+import re
 import subprocess
 from . import hist_for as histf
 import time
@@ -67,6 +68,16 @@ except ImportError:
     import pickle
 
 
+def list_checkpoints(folder):
+    # index and name of the checkpoints in a folder, the latest one at the end
+    checkpoints = []
+    for fname in os.listdir(folder):
+        match = re.fullmatch(r'simulation_checkpoint_(\d+)\.pkl', fname)
+        if match is not None:
+            checkpoints.append((int(match.group(1)), fname))
+    return sorted(checkpoints)
+
+
 class pyecloud_saver:
 
     # What has been recorded during the simulation (needed to resume it)
@@ -560,11 +571,12 @@ class pyecloud_saver:
                 if self.copy_main_outp_folder is not None:
                     self._copy_main_outp_to_safety(outpath=self.copy_main_outp_folder, beamtim=beamtim)
 
-                if self.i_checkp > 0:
-                    if self.flag_last_cloud:
-                        prevpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1)
-                        os.remove(prevpath)
-                        print('Removed simulation checkpoint in: ' + prevpath)
+                if self.flag_last_cloud:
+                    for i_prev, fname_prev in list_checkpoints(self.checkpoint_folder):
+                        if i_prev < self.i_checkp:
+                            prevpath = self.checkpoint_folder + fname_prev
+                            os.remove(prevpath)
+                            print('Removed simulation checkpoint in: ' + prevpath)
 
                 self.i_checkp += 1
                 self.t_last_checkp = beamtim.tt_curr
@@ -891,9 +903,11 @@ class pyecloud_saver:
             if keep_recorded_data:
                 dict_state['recorded_data'] = [saver.get_recorded_data() for saver in temp_saver_list]
 
-            with open(outfile, 'wb') as fid:
+            # The file gets its name only when it is complete
+            with open(outfile + '.tmp', 'wb') as fid:
                 # use best protocol available
                 pickle.dump(dict_state, fid, protocol=-1)
+            os.replace(outfile + '.tmp', outfile)
 
             # put back savers and configurations
             for cloud, saver, config_dict in zip(cloud_list, temp_saver_list, temp_config_list):
-- 
2.43.0


From 451f7e7973fc08848d3dc56fdd66c0685e7a4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 34/61] fix: accept a checkpoint folder given without final
 slash

---
 buildup_simulation.py | 4 ++--
 pyecloud_saver.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index b889c36..83c9542 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -479,7 +479,7 @@ class BuildupSimulation(object):
         load_from_folder="./",
     ):  # , reset_pyeclsaver = True):
 
-        with open(load_from_folder + filename_simulation_state, "rb") as fid:
+        with open(os.path.join(load_from_folder, filename_simulation_state), "rb") as fid:
             dict_state = pickle.load(fid)
 
         self.beamtim = dict_state["beamtim"]
@@ -528,7 +528,7 @@ class BuildupSimulation(object):
         print(
             (
                 "Reloading from checkpoint: %s..."
-                % (load_from_folder + filename_simulation_checkpoint)
+                % os.path.join(load_from_folder, filename_simulation_checkpoint)
             )
         )
 
diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 5697099..c4ad3fe 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -563,7 +563,7 @@ class pyecloud_saver:
         if (self.flag_save_checkpoint):
             if (beamtim.tt_curr - self.t_last_checkp >= self.checkpoint_DT):
 
-                outpath = self.checkpoint_folder + 'simulation_checkpoint_%d.pkl'%(self.i_checkp)
+                outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))
 
                 self._sim_state_single_save(beamtim, spacech_ele, t_sc_ON, flag_presence_sec_beams,
                                             sec_beams_list, flag_multiple_clouds, cloud_list, cross_ion, outpath,
@@ -574,7 +574,7 @@ class pyecloud_saver:
                 if self.flag_last_cloud:
                     for i_prev, fname_prev in list_checkpoints(self.checkpoint_folder):
                         if i_prev < self.i_checkp:
-                            prevpath = self.checkpoint_folder + fname_prev
+                            prevpath = os.path.join(self.checkpoint_folder, fname_prev)
                             os.remove(prevpath)
                             print('Removed simulation checkpoint in: ' + prevpath)
 
-- 
2.43.0


From 594e727f29f4ae5a5536d4bdc8740c5e57e95754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:19 +0000
Subject: [PATCH 35/61] fix: do not copy an output file that has not been
 written yet

---
 pyecloud_saver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index c4ad3fe..dc8c26c 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -582,8 +582,10 @@ class pyecloud_saver:
                 self.t_last_checkp = beamtim.tt_curr
 
     def _copy_main_outp_to_safety(self, outpath, beamtim):
-        shutil.copy(self.filen_main_outp, outpath)
-        self.t_last_copy = beamtim.tt_curr
+        # With save_mat_every > 1 there can be no output file yet
+        if os.path.isfile(self.filen_main_outp):
+            shutil.copy(self.filen_main_outp, outpath)
+            self.t_last_copy = beamtim.tt_curr
 
     def _copy_main_outp_init(self, copy_main_outp_DT, copy_main_outp_folder):
         # Simulation state saver init
-- 
2.43.0


From 26919ee9c041f788c59dced1dc92425f5d6e04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 36/61] fix: extract emission properties without charging the
 simulated surface

---
 impact_management_class.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/impact_management_class.py b/impact_management_class.py
index 2903b73..72c9a3f 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -50,6 +50,8 @@
 #
 #-End-preamble---------------------------------------------------------
 
+import copy
+
 import numpy as np
 from . import hist_for as histf
 from . import seg_impact as segi
@@ -360,6 +362,9 @@ class impact_management(object):
 
     def extract_sey_curves(self, n_rep, E_impact_eV_test, cos_theta_test, charge, mass):
 
+        # The test impacts must not charge the surface
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         deltas = {}
         for etype in list(self.sey_mod.event_types.keys()):
             etype_name = self.sey_mod.event_types[etype]
@@ -381,7 +386,7 @@ class impact_management(object):
                 nel_emit_tot_events, event_type, event_info,\
                     nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                     nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                    self.sey_mod.impacts_on_surface(
+                    sey_mod.impacts_on_surface(
                         mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                         vx_impact=vx * np.ones_like(nel_impact),
                         vy_impact=vy * np.ones_like(nel_impact),
@@ -407,6 +412,10 @@ class impact_management(object):
 
     def extract_energy_distributions(self, n_rep, E_impact_eV_test, cos_theta_test, mass, Nbin_extract_ene, factor_ene_dist_max):
         """Extract energy distributions for secondary electrons."""
+
+        # The test impacts must not charge the surface
+        sey_mod = copy.deepcopy(self.sey_mod)
+
         emit_ene_g_hist = np.linspace(
             0., E_impact_eV_test * factor_ene_dist_max, Nbin_extract_ene)
         Dextract_ene = emit_ene_g_hist[1] - emit_ene_g_hist[0]
@@ -430,7 +439,7 @@ class impact_management(object):
             nel_emit_tot_events, event_type, event_info,\
                 nel_replace, x_replace, y_replace, z_replace, vx_replace, vy_replace, vz_replace, i_seg_replace,\
                 nel_new_MPs, x_new_MPs, y_new_MPs, z_new_MPs, vx_new_MPs, vy_new_MPs, vz_new_MPs, i_seg_new_MPs =\
-                self.sey_mod.impacts_on_surface(
+                sey_mod.impacts_on_surface(
                     mass=mass, nel_impact=nel_impact, x_impact=nel_impact * 0, y_impact=nel_impact * 0, z_impact=nel_impact * 0,
                     vx_impact=vx * np.ones_like(nel_impact),
                     vy_impact=vy * np.ones_like(nel_impact),
-- 
2.43.0


From dac1b67e46d4479b41492f21d49c8ba7fb2e634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 37/61] fix: write the density movie of each cloud into its own
 folder

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index dc8c26c..3a78f9f 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -967,7 +967,7 @@ class pyecloud_saver:
         # save rho video for cloud
         if self.flag_video and self.flag_multiple_clouds:
             if not os.path.exists(self.folder_outp + '/rho_video_%s'%(self.cloud_name)):
-                os.makedirs(self.folder_outp + 'rho_video_%s'%(self.cloud_name))
+                os.makedirs(self.folder_outp + '/rho_video_%s'%(self.cloud_name))
             if self.rho_video_cloud is None:
                     self.rho_video_cloud = []
                     self.t_video_cloud = []
@@ -980,7 +980,7 @@ class pyecloud_saver:
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-                filename_rho = self.folder_outp + 'rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
+                filename_rho = self.folder_outp + '/rho_video_%s/rho_pass%d.mat'%(self.cloud_name, beamtim.pass_numb - 1)
                 print('Saving %s'%filename_rho)
                 sio.savemat(filename_rho, {'xg_sc': spacech_ele.xg, 'yg_sc': spacech_ele.yg, 't_video': self.t_video_cloud, 'rho_video': self.rho_video_cloud}, oned_as='row')
                 print('Done')
-- 
2.43.0


From aee9da2559afff5a0160b947f576bc143b5698d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 38/61] fix: movie frames are copies of the solver arrays

---
 pyecloud_saver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 3a78f9f..d6174e8 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -952,7 +952,7 @@ class pyecloud_saver:
                 self.rho_video = []
                 self.t_video = []
             if spacech_ele.last_recomputation_check:
-                self.rho_video.append(spacech_ele.rho)
+                self.rho_video.append(np.array(spacech_ele.rho))
                 self.t_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.rho_video = np.array(self.rho_video)
@@ -975,7 +975,7 @@ class pyecloud_saver:
                 if rho_cloud is None:
                     print('Warning! No rho provided for saving.')
                 else:
-                    self.rho_video_cloud.append(rho_cloud)
+                    self.rho_video_cloud.append(np.array(rho_cloud))
                 self.t_video_cloud.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
@@ -1004,8 +1004,8 @@ class pyecloud_saver:
                 self.efy_video = []
                 self.t_efield_video = []
             if spacech_ele.last_recomputation_check:
-                self.efx_video.append(spacech_ele.efx)
-                self.efy_video.append(spacech_ele.efy)
+                self.efx_video.append(np.array(spacech_ele.efx))
+                self.efy_video.append(np.array(spacech_ele.efy))
                 self.t_efield_video.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.efx_video = np.array(self.efx_video)
-- 
2.43.0


From 94ba8928d5620e4adb1e4cbad4e13994d0798eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 39/61] fix: no time stamp without a frame in the movie of a
 cloud

---
 pyecloud_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index d6174e8..bff70d9 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -976,7 +976,7 @@ class pyecloud_saver:
                     print('Warning! No rho provided for saving.')
                 else:
                     self.rho_video_cloud.append(np.array(rho_cloud))
-                self.t_video_cloud.append(beamtim.tt_curr)
+                    self.t_video_cloud.append(beamtim.tt_curr)
             if beamtim.flag_new_bunch_pass:
                 self.rho_video_cloud = np.array(self.rho_video_cloud)
                 self.t_video_cloud = np.array(self.t_video_cloud)
-- 
2.43.0


From 9014cec425e4fa89558a910009f2a5fe5a10afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 40/61] fix: particles move in steps shorter than half a
 sub-step

---
 buildup_simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/buildup_simulation.py b/buildup_simulation.py
index 83c9542..6a148fe 100644
--- a/buildup_simulation.py
+++ b/buildup_simulation.py
@@ -318,7 +318,9 @@ class BuildupSimulation(object):
             # Non-uniform beam-profile
             flag_substeps = True
             Dt_substep_target = cloud.dynamics.Dt / cloud.dynamics.N_sub_steps
-            N_substeps_curr = int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            N_substeps_curr = max(
+                1, int(np.round(beamtim.Dt_curr / Dt_substep_target))
+            )
             Dt_substep_curr = beamtim.Dt_curr / N_substeps_curr
 
         elif hasattr(cloud.dynamics, "N_sub_steps"):
-- 
2.43.0


From dddd7ac659dde5199b3dade5ab007c2e56b0d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 41/61] fix: accept a file with a single observation time

---
 pyecloud_saver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index bff70d9..584e987 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -833,7 +833,7 @@ class pyecloud_saver:
             self.flag_save_MP_state = True
             if type(save_mp_state_time_file) is str:
                 dict_save_mp_state_time = sio.loadmat(save_mp_state_time_file)
-                self.t_obs = np.squeeze(dict_save_mp_state_time['t_obs'].real)
+                self.t_obs = np.atleast_1d(np.squeeze(dict_save_mp_state_time['t_obs'].real))
             else:
                 self.t_obs = np.array(save_mp_state_time_file)
 
@@ -868,7 +868,7 @@ class pyecloud_saver:
             self.flag_save_simulation_state = True
             if type(save_simulation_state_time_file) is str:
                 dict_save_simulation_state_time = sio.loadmat(save_simulation_state_time_file)
-                self.t_obs_sim = np.squeeze(dict_save_simulation_state_time['t_obs'].real)
+                self.t_obs_sim = np.atleast_1d(np.squeeze(dict_save_simulation_state_time['t_obs'].real))
             else:
                 self.t_obs_sim = np.array(save_simulation_state_time_file)
 
-- 
2.43.0


From 6ad190f37a494175d5354b8809a42f2d71d06236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 42/61] fix: emission models keep their own copy of the wall
 properties

---
 sec_emission_model_ECLOUD_nunif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sec_emission_model_ECLOUD_nunif.py b/sec_emission_model_ECLOUD_nunif.py
index 3b36ac5..c2ff36c 100644
--- a/sec_emission_model_ECLOUD_nunif.py
+++ b/sec_emission_model_ECLOUD_nunif.py
@@ -99,9 +99,9 @@ class SEY_model_ECLOUD_non_unif(SEY_model_ECLOUD):
             else:
                 self.angle_dist_func = None
 
-            self.del_max_segments = np.float64(chamb.del_max_segments)
-            self.R0_segments = np.float64(chamb.R0_segments)
-            self.Emax_segments = np.float64(chamb.Emax_segments)
+            self.del_max_segments = np.array(chamb.del_max_segments, dtype=float)
+            self.R0_segments = np.array(chamb.R0_segments, dtype=float)
+            self.Emax_segments = np.array(chamb.Emax_segments, dtype=float)
 
             self.del_max_segments[chamb.del_max_segments < 0.] = del_max
             self.R0_segments[chamb.R0_segments < 0.] = R0
-- 
2.43.0


From 3e19299b61d9b011f5a6af71846d850de1176920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 43/61] fix: rate of change of the vector potential over the
 actual recomputation interval

---
 space_charge_class_electromagnetic.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/space_charge_class_electromagnetic.py b/space_charge_class_electromagnetic.py
index d2f4e78..37b65bb 100644
--- a/space_charge_class_electromagnetic.py
+++ b/space_charge_class_electromagnetic.py
@@ -96,6 +96,18 @@ class space_charge_electromagnetic(space_charge, object):
         self.gamma = gamma
         self.beta = np.sqrt(1-1/(gamma*gamma))
 
+        # Time between the last two recomputations
+        self.Dt_recom = 0.
+
+    def check_for_recomputation(self, t_curr=None):
+        t_last_recom = self.t_last_recom
+        flag_recompute = super(space_charge_electromagnetic, self).check_for_recomputation(t_curr)
+
+        if flag_recompute:
+            self.Dt_recom = t_curr - t_last_recom
+
+        return flag_recompute
+
     def recompute_spchg_emfield(self, MP_e, flag_solve=True, flag_reset=True):
         # Update the old states before scattering
         # The text trap makes sure that no output is shown in the terminal
@@ -132,9 +144,9 @@ class space_charge_electromagnetic(space_charge, object):
         dAy_dx = -m_dAy_dx
 
         # If not first passage compute time derivatives of Ax and Ay
-        if self.state_Ax_old != None and self.state_Ax_old != None:
-            dAx_dt = (self.state_Ax.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]) -  self.state_Ax_old.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]))/self.Dt_sc
-            dAy_dt = (self.state_Ay.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]) -  self.state_Ay_old.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]))/self.Dt_sc
+        if self.state_Ax_old != None and self.state_Ay_old != None and self.Dt_recom > 0.:
+            dAx_dt = (self.state_Ax.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]) -  self.state_Ax_old.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]))/self.Dt_recom
+            dAy_dt = (self.state_Ay.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]) -  self.state_Ay_old.gather_phi(MP_e.x_mp[0:MP_e.N_mp], MP_e.y_mp[0:MP_e.N_mp]))/self.Dt_recom
         # If first passage set derivatives to zero
         else:
             dAx_dt = np.zeros(MP_e.N_mp)
-- 
2.43.0


From 91a88cef4b11f3695294e2f7b676e6aef6bdae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 44/61] fix: each e-cloud moves in its own space-charge field,
 zero at the start of a passage

---
 PyEC4PyHT.py          |  8 ++++++++
 space_charge_class.py | 31 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 394c2ce..fccfd4f 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -371,6 +371,9 @@ class Ecloud(object):
 
         self.spacech_ele = self.cloudsim.spacech_ele  # For backwards compatibility
 
+        # to keep the fields of this e-cloud when the space-charge object is shared
+        self.sc_fields = {}
+
         self.kick_mode_for_beam_field = kick_mode_for_beam_field
         self.beam_monitor = beam_monitor
 
@@ -484,6 +487,9 @@ class Ecloud(object):
 
         spacech_ele = self.cloudsim.spacech_ele
 
+        # The electrons move in the field of their own e-cloud
+        spacech_ele.select_fields(self.sc_fields)
+
         # Check if the slice interacts with the beam
         if hasattr(slic, "slice_info"):
             if "interact_with_EC" in list(slic.slice_info.keys()):
@@ -692,6 +698,8 @@ class Ecloud(object):
 
         cc = mlm.obj_from_dict(self.cloudsim.config_dict)
 
+        self.cloudsim.spacech_ele.reset_fields(self.sc_fields, self.t_sim)
+
         for thiscloud, initdict in zip(
             self.cloudsim.cloud_list, self.initial_MP_e_clouds
         ):
diff --git a/space_charge_class.py b/space_charge_class.py
index 53026df..6e2fcd3 100644
--- a/space_charge_class.py
+++ b/space_charge_class.py
@@ -156,6 +156,8 @@ class space_charge:
 
 
         self.comm = None
+
+        self.fields_owner = None  # see select_fields
         print('Done space charge init.')
 
     @property
@@ -218,6 +220,35 @@ class space_charge:
     def compute_spchg_efield_from_rho(self, rho, flag_verbose=True):
         self.PyPICobj.solve(rho=rho, flag_verbose=flag_verbose)
 
+    def set_fields(self, fields=None):
+        # put the given fields (zero if not given) in the PyPIC object
+        for i_grid, grid in enumerate(_grids_of(self.PyPICobj)):
+            for ff in self.field_names:
+                if fields is None:
+                    setattr(grid, ff, np.zeros_like(getattr(grid, ff)))
+                else:
+                    setattr(grid, ff, fields[i_grid][ff])
+
+    def select_fields(self, owner):
+        # When the PyPIC object is shared, each user has a dictionary (owner) in which
+        # its fields are kept while the PyPIC object is used by the others
+        if self.fields_owner is not owner:
+            if self.fields_owner is not None:
+                self.fields_owner['t_last_recom'] = self.t_last_recom
+                self.fields_owner['fields'] = [
+                    {ff: np.array(getattr(grid, ff)) for ff in self.field_names} for grid in _grids_of(self.PyPICobj)]
+            self.t_last_recom = owner.pop('t_last_recom', 0.)
+            self.set_fields(owner.pop('fields', None))
+            self.fields_owner = owner
+
+    def reset_fields(self, owner, t_curr=0.):
+        owner.clear()
+        if self.fields_owner is owner:
+            self.t_last_recom = t_curr
+            self.set_fields(None)
+        else:
+            owner['t_last_recom'] = t_curr
+
     def detach_pic_objects(self):
         # PyPIC objects can in general not be pickled: only the fields that they hold are kept
         pic_objects = {}
-- 
2.43.0


From 03be7bc76d4d36c10ea5aa68094098747b133516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 45/61] fix: keep the field of the cloud apart from the field
 of the beam slice

---
 PyEC4PyHT.py          | 5 ++++-
 space_charge_class.py | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index fccfd4f..e2db9e8 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -59,6 +59,7 @@ from scipy.constants import c
 
 from . import myloadmat_to_obj as mlm
 from . import buildup_simulation as bsim
+from .space_charge_class import own_field_memory
 
 
 class Empty(object):
@@ -576,7 +577,9 @@ class Ecloud(object):
                     nel_mp=slic.x[ix] * 0.0 + slic.particlenumber_per_mp / dz,
                     charge=slic.charge,
                 )
-                self.cloudsim.spacech_ele.PyPICobj.solve_states([self.beam_PyPIC_state])
+                own_field_memory(spacech_ele.PyPICobj)
+                spacech_ele.PyPICobj.solve_states([self.beam_PyPIC_state])
+                own_field_memory(self.beam_PyPIC_state)
 
                 # build dummy beamtim object
                 dummybeamtim = DummyBeamTim(self.beam_PyPIC_state)
diff --git a/space_charge_class.py b/space_charge_class.py
index 6e2fcd3..65a73a9 100644
--- a/space_charge_class.py
+++ b/space_charge_class.py
@@ -68,6 +68,14 @@ def _grids_of(pic):
     return grids + [pic]
 
 
+def own_field_memory(pic):
+    # Some PyPIC solvers (FFT_OpenBoundary) overwrite the fields that they returned at the next solve:
+    # needed when other states are solved while these fields are still in use
+    for grid in _grids_of(pic):
+        for ff in ('rho', 'phi', 'efx', 'efy'):
+            setattr(grid, ff, np.array(getattr(grid, ff)))
+
+
 class space_charge:
 
     # attributes holding PyPIC objects
-- 
2.43.0


From 01d19212ceef707272ea3ef9913dcf2006cf9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 46/61] fix: probe records exist before the first passage

---
 PyEC4PyHT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index e2db9e8..08af7d0 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -323,6 +323,8 @@ class Ecloud(object):
         self.Ey_ele_last_track_at_probes = -1
         if "probes_position" in list(kwargs.keys()):
             self.save_ele_field_probes = True
+            self.Ex_ele_last_track_at_probes = []
+            self.Ey_ele_last_track_at_probes = []
             self.probes_position = kwargs["probes_position"]
             self.N_probes = len(self.probes_position)
             self.x_probes = []
-- 
2.43.0


From 4f9f7626481c7d63fc78a92aad8f9e169813c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 47/61] fix: impact histograms of a passage start from zero

---
 PyEC4PyHT.py               |  3 +++
 impact_management_class.py | 15 +++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 08af7d0..4c4de34 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -711,6 +711,9 @@ class Ecloud(object):
             thiscloud.MP_e.init_from_dict(initdict)
             thiscloud.MP_e.set_nel_mp_ref(thiscloud.MP_e.nel_mp_ref_0)
 
+            # impacts of the previous passage do not belong to the new one
+            thiscloud.impact_man.reset_all_hists()
+
             thisconf = thiscloud.config_dict
 
             if thiscloud.pyeclsaver is not None:
diff --git a/impact_management_class.py b/impact_management_class.py
index 72c9a3f..d2ad915 100644
--- a/impact_management_class.py
+++ b/impact_management_class.py
@@ -172,6 +172,21 @@ class impact_management(object):
     def reset_lifetime_hist_line(self):
         self.lifetime_hist_line *= 0.
 
+    def reset_all_hists(self):
+        self.reset_impact_hist_tot()
+        self.reset_impact_hist_scrub()
+        self.reset_energ_eV_impact_hist()
+        self.reset_En_hist_line()
+        self.reset_hist_impact_seg()
+        self.reset_hist_emit_seg()
+        self.reset_energ_impact_seg()
+        if self.flag_seg and self.flag_En_hist_seg:
+            self.reset_seg_En_hist_lines()
+        if self.flag_cos_angle_hist:
+            self.reset_cos_angle_hist()
+        if self.flag_lifetime_hist:
+            self.reset_lifetime_hist_line()
+
     # @profile
     def backtrack_and_second_emiss(self, old_pos, MP_e, tt_curr=None):
 
-- 
2.43.0


From 1b2f6961385fc9a7af4ed0e04db00f68fabfa582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 48/61] fix: the replayed field map respects the disabled kicks

---
 PyEC4PyHT.py                              |  2 ++
 Transverse_Efield_map_for_frozen_cloud.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 4c4de34..8682560 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -454,6 +454,8 @@ class Ecloud(object):
                 x_beam_offset=self.x_beam_offset,
                 y_beam_offset=self.y_beam_offset,
                 slice_by_slice_mode=self.slice_by_slice_mode,
+                enable_kick_x=self.enable_kick_x,
+                enable_kick_y=self.enable_kick_y,
             )
 
             self._ecloud_track = self.track
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index f8cb489..2eee169 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -8,7 +8,8 @@ from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather
 class Transverse_Efield_map(object):
     def __init__(self, xg, yg, Ex, Ey, L_interaction, slicer,
                  flag_clean_slices=False, wrt_slice_centroid=False,
-                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False):
+                 x_beam_offset=0., y_beam_offset=0., slice_by_slice_mode=False,
+                 enable_kick_x=True, enable_kick_y=True):
 
         self.slicer = slicer
         self.L_interaction = L_interaction
@@ -22,6 +23,9 @@ class Transverse_Efield_map(object):
         self.x_beam_offset = x_beam_offset
         self.y_beam_offset = y_beam_offset
 
+        self.enable_kick_x = enable_kick_x
+        self.enable_kick_y = enable_kick_y
+
         self.slice_by_slice_mode = slice_by_slice_mode
         if self.slice_by_slice_mode:
             self.sid = 0
@@ -74,8 +78,10 @@ class Transverse_Efield_map(object):
 
         # kick beam particles
         fact_kick = beam.charge / (beam.p0 * beam.beta * c) * self.L_interaction
-        beam.xp[pid] += fact_kick * Ex_sc_p
-        beam.yp[pid] += fact_kick * Ey_sc_p
+        if self.enable_kick_x:
+            beam.xp[pid] += fact_kick * Ex_sc_p
+        if self.enable_kick_y:
+            beam.yp[pid] += fact_kick * Ey_sc_p
 
     def _track_in_single_slice_mode(self, beam):
 
-- 
2.43.0


From 79e8aa0fe9863d732f1b68bd47abe1ac92565bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 49/61] fix: the replayed field map follows the slices that
 interact and restarts with each beam

---
 PyEC4PyHT.py                              | 12 ++++++++++--
 Transverse_Efield_map_for_frozen_cloud.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 8682560..51e06d4 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -443,11 +443,14 @@ class Ecloud(object):
         if not hasattr(self, "efieldmap"):
             from .Transverse_Efield_map_for_frozen_cloud import Transverse_Efield_map
 
+            # one field for each slice that interacts with the cloud
+            interacting = self.interacting_last_track
+
             self.efieldmap = Transverse_Efield_map(
                 xg=self.spacech_ele.xg,
                 yg=self.spacech_ele.yg,
-                Ex=self.Ex_ele_last_track,
-                Ey=self.Ey_ele_last_track,
+                Ex=self.Ex_ele_last_track[interacting],
+                Ey=self.Ey_ele_last_track[interacting],
                 L_interaction=self.L_ecloud,
                 slicer=self.slicer,
                 flag_clean_slices=True,
@@ -658,6 +661,7 @@ class Ecloud(object):
             if self.save_ele_field:
                 self.Ex_ele_last_track.append(spacech_ele.efx.copy())
                 self.Ey_ele_last_track.append(spacech_ele.efy.copy())
+                self.interacting_last_track.append(interact_with_EC)
 
             if self.save_beam_distributions_last_track:
                 self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
@@ -773,6 +777,7 @@ class Ecloud(object):
         if self.save_ele_field:
             self.Ex_ele_last_track = []
             self.Ey_ele_last_track = []
+            self.interacting_last_track = []
 
         if self.save_beam_distributions_last_track:
             self.rho_beam_last_track = []
@@ -825,6 +830,9 @@ class Ecloud(object):
         if self.save_ele_field:
             self.Ex_ele_last_track = np.array(self.Ex_ele_last_track[::-1])
             self.Ey_ele_last_track = np.array(self.Ey_ele_last_track[::-1])
+            self.interacting_last_track = np.array(
+                self.interacting_last_track[::-1], dtype=bool
+            )
 
         if self.save_beam_distributions_last_track:
             self.rho_beam_last_track = np.array(self.rho_beam_last_track[::-1])
diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index 2eee169..6f8e984 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -86,8 +86,16 @@ class Transverse_Efield_map(object):
     def _track_in_single_slice_mode(self, beam):
 
         if beam.slice_info != 'unsliced':
-            self.sid -= 1
-            self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
+
+            # same logic as in the e-cloud
+            if 'info_parent_bunch' in beam.slice_info:
+                if (beam.slice_info['info_parent_bunch']['i_bunch'] == 0
+                        and beam.slice_info['i_slice'] == 0):
+                    self.finalize_and_reinitialize()
+
+            if beam.slice_info.get('interact_with_EC', True):
+                self.sid -= 1
+                self._track_single_slice(beam=beam, sid=self.sid, pid=np.arange(beam.macroparticlenumber))
 
     def _finalize_and_reinitialize(self):
         self.sid = 0
-- 
2.43.0


From 39cfed644eb3eb2067700599254ff50074922973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 50/61] fix: each slice gets the field recorded for it

---
 Transverse_Efield_map_for_frozen_cloud.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Transverse_Efield_map_for_frozen_cloud.py b/Transverse_Efield_map_for_frozen_cloud.py
index 6f8e984..6ab6246 100644
--- a/Transverse_Efield_map_for_frozen_cloud.py
+++ b/Transverse_Efield_map_for_frozen_cloud.py
@@ -46,10 +46,7 @@ class Transverse_Efield_map(object):
 
         slices = beam.get_slices(self.slicer)
 
-        sid = 0
-        for _ in range(slices.n_slices):
-
-            sid -= 1
+        for sid in range(slices.n_slices - 1, -1, -1):
 
             # select particles in the slice
             pid = slices.particle_indices_of_slice(sid)
-- 
2.43.0


From 6568d3dc09e4fefe49d0e9ca67764a596d1f6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 51/61] fix: histogram counts only what is at or above its
 first bin

---
 compute_hist.f | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/compute_hist.f b/compute_hist.f
index c827f15..a7b8851 100644
--- a/compute_hist.f
+++ b/compute_hist.f
@@ -28,21 +28,20 @@ Cf2py intent(inout) hist
 		!loop over particles
         	
         	fi = 1+(x_mp(p)-bias_x)/Dx;   !real i index of particle's cell 
-        	i = int(fi);                  !integral part
-        	hx = fi-dble(i);              !the remainder
-        
-        	
          	wei_mp_curr=wei_mp(p);
         
         	!interpolate charge to nodes
 		!write (*,*) 'Nxg=', Nxg
 		!write (*,*) 'i=', i
 
-		if (i<Nxg) then
+		!values below the first bin (and NaNs) are not counted
+		if (fi>=dble(Nxg)) then
+        	hist(Nxg)=hist(Nxg)+ wei_mp_curr
+		else if (fi>=1d0) then
+        	i = int(fi);                  !integral part
+        	hx = fi-dble(i);              !the remainder
         	hist(i) = hist(i) + wei_mp_curr*(1-hx);
         	hist(i+1) = hist(i+1) + wei_mp_curr*hx;
-        	else
-        	hist(Nxg)=hist(Nxg)+ wei_mp_curr
 		end if
        
 	end do
-- 
2.43.0


From 0366510b8c3c7cc67dc00dc504478ad2efce335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 52/61] fix: the documented name of the analytic quadrupole is
 accepted

---
 dynamics_Boris_f2py.py           | 2 +-
 dynamics_strong_B_generalized.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynamics_Boris_f2py.py b/dynamics_Boris_f2py.py
index 1f30fa3..57759a2 100644
--- a/dynamics_Boris_f2py.py
+++ b/dynamics_Boris_f2py.py
@@ -152,7 +152,7 @@ class pusher_Boris():
         if B_map_file is None:
             self.B_ob = B_none(B0x, B0y, B0z)
 
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.B_ob = B_quad(B0x, B0y, B0z, fact_Bmap)
 
diff --git a/dynamics_strong_B_generalized.py b/dynamics_strong_B_generalized.py
index 15b2dfa..d766bd6 100644
--- a/dynamics_strong_B_generalized.py
+++ b/dynamics_strong_B_generalized.py
@@ -74,7 +74,7 @@ class pusher_strong_B_generalized():
         if B_map_file is None:
             self.flag_B_map = False
             self.analyt_quad_grad1 = False
-        elif B_map_file == 'analytic_qaudrupole_unit_grad':
+        elif B_map_file in ('analytic_quadrupole_unit_grad', 'analytic_qaudrupole_unit_grad'):
             print("B map analytic quadrupole")
             self.flag_B_map = False
             self.analyt_quad_grad1 = True
-- 
2.43.0


From 8bcac4308ffcb3a920cf5290fbe2cabf3e1513f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 53/61] fix: fields not given to the generalised strong field
 tracker are zero

---
 init.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/init.py b/init.py
index 7ed2ac9..6cde005 100644
--- a/init.py
+++ b/init.py
@@ -512,7 +512,9 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             #~ raise ValueError('The StrongBgen tracker is no longer supported! If you really want to use it remove this line.')
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBgen tracking method is implemented only for electrons!')
-            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, cc.B0x, cc.B0y,
+            temp_B0x = {True: 0., False: cc.B0x}[cc.B0x is None]
+            temp_B0y = {True: 0., False: cc.B0y}[cc.B0y is None]
+            dynamics = dyngen.pusher_strong_B_generalized(cc.Dt, temp_B0x, temp_B0y,
                                                           cc.B_map_file, cc.fact_Bmap, cc.B_zero_thrhld)
         elif cc.track_method == 'BorisMultipole':
             dynamics = dynmul.pusher_Boris_multipole(Dt=cc.Dt, N_sub_steps=thiscloud.N_sub_steps, B_multip=cc.B_multip, B_skew=cc.B_skew,
-- 
2.43.0


From 6cda919ac0c05c7eb6631426cd12d6789f0b178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 54/61] fix: parameters that gas ionisation, photoemission and
 B = -1 need have to be given

---
 init.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/init.py b/init.py
index 6cde005..17e4942 100644
--- a/init.py
+++ b/init.py
@@ -424,11 +424,24 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
 
         # Init gas ionization and photoemission
         if thiscloud.gas_ion_flag == 1:
+            for par in ('unif_frac', 'P_nTorr', 'sigma_ion_MBarn', 'Temp_K', 'E_init_ion'):
+                if getattr(thiscloud, par) == -1:
+                    raise inp_spec.PyECLOUD_ConfigException('%s must be provided for the residual gas ionization!' % par)
             resgasion = gic.residual_gas_ionization(thiscloud.unif_frac, thiscloud.P_nTorr, thiscloud.sigma_ion_MBarn,
                                                     thiscloud.Temp_K, chamb, thiscloud.E_init_ion, thiscloud.flag_lifetime_hist)
         else:
             resgasion = None
 
+        if thiscloud.photoem_flag != 0:
+            pars_photoem = ['k_pe_st']
+            if thiscloud.photoem_flag not in (3, 'per_segment'):
+                pars_photoem.append('out_radius')
+            if thiscloud.photoem_flag == 1:
+                pars_photoem += ['refl_frac', 'alimit']
+            for par in pars_photoem:
+                if getattr(thiscloud, par) == -1:
+                    raise inp_spec.PyECLOUD_ConfigException('%s must be provided for the photoemission!' % par)
+
         if thiscloud.photoem_flag == 1:
             phemiss = gpc.photoemission(thiscloud.inv_CDF_refl_photoem_file, thiscloud.k_pe_st, thiscloud.refl_frac, thiscloud.e_pe_sigma, thiscloud.e_pe_max,
                                         thiscloud.alimit, thiscloud.x0_refl, thiscloud.y0_refl, thiscloud.out_radius, chamb, thiscloud.phem_resc_fac,
@@ -502,6 +515,8 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
             if not(np.abs(thiscloud.cloud_charge - (-qe)) / np.abs(qe) < 1e-3 and np.abs(thiscloud.cloud_mass - m_e) / m_e < 1e-3):
                 raise ValueError('StrongBdip tracking method is implemented only for electrons!')
             if cc.B == -1:
+                if cc.bm_totlen == -1:
+                    raise inp_spec.PyECLOUD_ConfigException('bm_totlen must be provided when B = -1!')
                 B = 2 * np.pi * b_par.beta_rel * b_par.energy_J / (c * qe * cc.bm_totlen)
             else:
                 B = cc.B
-- 
2.43.0


From 4aacd89f5bffcff03f628ffe9b532c5ef4c36ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 55/61] fix: soft and async regeneration need both of their
 parameters

---
 MP_system.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MP_system.py b/MP_system.py
index 2117ba9..2de08b9 100644
--- a/MP_system.py
+++ b/MP_system.py
@@ -120,6 +120,11 @@ class MP_system:
 
         self.regen_hist_cut = regen_hist_cut
 
+        if (N_mp_soft_regen is None) != (N_mp_after_soft_regen is None):
+            raise ValueError('N_mp_soft_regen and N_mp_after_soft_regen must be provided together!')
+        if (N_mp_async_regen is None) != (N_mp_after_async_regen is None):
+            raise ValueError('N_mp_async_regen and N_mp_after_async_regen must be provided together!')
+
         self.flag_soft_regen = False
         if (N_mp_soft_regen is not None) and (N_mp_after_soft_regen is not None):
             self.flag_soft_regen = True
-- 
2.43.0


From a4e8e560c05d57ade855df203a667e105e8edff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 56/61] fix: clouds with the same name are refused

---
 init.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/init.py b/init.py
index 17e4942..f06cfeb 100644
--- a/init.py
+++ b/init.py
@@ -174,6 +174,10 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
         for add_cloud_file in cc.additional_clouds_file_list:
             cloud_par_list.append(pcf.cloud_descr_from_file(cloudfilename=os.path.join(pyecl_input_folder, add_cloud_file), default_param_obj=cc))
 
+    cloud_names = [cloud_par.cc.cloud_name for cloud_par in cloud_par_list]
+    if len(set(cloud_names)) < len(cloud_names):
+        raise inp_spec.PyECLOUD_ConfigException('Clouds must have different names! They are: %r' % cloud_names)
+
     # Init chamber
     flag_non_unif_sey = False
     for cloud_par in cloud_par_list:
-- 
2.43.0


From c5a08c6bdabaa9900df76820c788578e91506b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 57/61] fix: keyword overrides of the names of the parameter
 files are honoured

---
 init.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/init.py b/init.py
index f06cfeb..58395b6 100644
--- a/init.py
+++ b/init.py
@@ -92,13 +92,16 @@ from . import input_parameters_format_specification as inp_spec
 from . import cloud_manager as cman
 from . import cross_ionization as cion
 
-def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False):
+def read_parameter_files(pyecl_input_folder='./', skip_beam_files=False, file_names={}):
     simulation_param_file = 'simulation_parameters.input'
 
     # Parse simulation_parameters.input
     input_parameters = inp_spec.import_module_from_file('simulation_parameters', os.path.join(pyecl_input_folder, simulation_param_file))
 
     # Get names of other input files
+    for attr in ('machine_param_file', 'secondary_emission_parameters_file', 'beam_parameters_file'):
+        if attr in file_names:
+            setattr(input_parameters, attr, file_names[attr])
     machine_param_file = input_parameters.machine_param_file
     secondary_emission_parameters_file = input_parameters.secondary_emission_parameters_file
     beam_parameters_file = input_parameters.beam_parameters_file
@@ -130,7 +133,8 @@ def read_input_files_and_init_components(pyecl_input_folder='./', skip_beam=Fals
                                          spacech_ele=None,
                                          ignore_kwargs=(), **kwargs):
 
-    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam)
+    config_dict = read_parameter_files(pyecl_input_folder, skip_beam_files=skip_beam,
+                                       file_names={attr: kwargs[attr] for attr in kwargs if attr not in ignore_kwargs})
     # Override config values with kwargs
     for attr, value in list(kwargs.items()):
         if attr in ignore_kwargs:
-- 
2.43.0


From 61e56625cf8fb7b944b701257d3fe75b68815147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 58/61] fix: a beam energy below the rest energy is refused

---
 parse_beam_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse_beam_file.py b/parse_beam_file.py
index 8dca9f8..c6aab2e 100644
--- a/parse_beam_file.py
+++ b/parse_beam_file.py
@@ -35,6 +35,8 @@ class beam_descr_from_fil:
 
         energy_J = cc.energy_eV * qe
         gamma_rel = energy_J / (cc.m0_part * c**2)
+        if gamma_rel < 1.:
+            raise ValueError('The total energy of the beam particles must be larger than their rest energy!')
         beta_rel = np.sqrt(1 - 1 / (gamma_rel * gamma_rel))
         beta_rel = beta_rel.real
 
-- 
2.43.0


From c21d4a2abab126f799a6e46e3a80f8603bdde9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 59/61] fix: photoemission from file refuses an emission circle
 that enters the chamber

---
 gen_photoemission_class.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gen_photoemission_class.py b/gen_photoemission_class.py
index bf054ad..a8ea286 100644
--- a/gen_photoemission_class.py
+++ b/gen_photoemission_class.py
@@ -238,6 +238,14 @@ class photoemission_from_file(photoemission_base):
 
         self.get_energy = electron_emission.get_energy_distribution_func(energy_distribution, e_pe_sigma, e_pe_max)
         self.angle_dist_func = electron_emission.get_angle_dist_func(photoelectron_angle_distribution)
+
+        # Check that outer circle is correct
+        psi_gen = np.linspace(0, 2.*np.pi, 10000)
+        x_out = self.out_radius * np.cos(psi_gen)
+        y_out = self.out_radius * np.sin(psi_gen)
+        if np.any(~self.chamb.is_outside(x_out, y_out)):
+            raise ValueError('Photoemission circle points are inside the chamber, check your settings!')
+
         print('Done photoemission init')
 
     def generate(self, MP_e, lambda_t, Dt):
-- 
2.43.0


From 7fed683a344ed86e74a5dd935080f72033fc0690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 60/61] fix: an incomplete set of detailed histogram parameters
 is refused

---
 pyecloud_saver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyecloud_saver.py b/pyecloud_saver.py
index 584e987..d98ad72 100644
--- a/pyecloud_saver.py
+++ b/pyecloud_saver.py
@@ -383,9 +383,10 @@ class pyecloud_saver:
         self.flag_hist_det = False
         self.xg_hist_det = -1
         self.nel_hist_det = -1
-        if x_min_hist_det is not None:
-            if x_max_hist_det is None or y_min_hist_det is None or y_max_hist_det is None or Dx_hist_det is None:
-                raise ValueError('x_min_hist_det is not None but one among x_max_hist_det, y_min_hist_det, y_max_hist_det, Dx_hist_det is None!')
+        hist_det_given = [p is not None for p in (x_min_hist_det, x_max_hist_det, y_min_hist_det, y_max_hist_det, Dx_hist_det)]
+        if any(hist_det_given):
+            if not all(hist_det_given):
+                raise ValueError('Either all or none of x_min_hist_det, x_max_hist_det, y_min_hist_det, y_max_hist_det, Dx_hist_det must be given!')
 
             self.flag_hist_det = True
             self.x_min_hist_det = x_min_hist_det
-- 
2.43.0


From b060000f11e4e88b1726a0f9d79338a58549d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 61/61] fix: recorded beam fields of slices without beam are
 zero

---
 PyEC4PyHT.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/PyEC4PyHT.py b/PyEC4PyHT.py
index 51e06d4..a24992a 100644
--- a/PyEC4PyHT.py
+++ b/PyEC4PyHT.py
@@ -663,15 +663,18 @@ class Ecloud(object):
                 self.Ey_ele_last_track.append(spacech_ele.efy.copy())
                 self.interacting_last_track.append(interact_with_EC)
 
+            # without beam, the state still has the field of an earlier slice
+            flag_beam = float(len(ix) > 0 and interact_with_EC)
+
             if self.save_beam_distributions_last_track:
-                self.rho_beam_last_track.append(self.beam_PyPIC_state.rho.copy())
+                self.rho_beam_last_track.append(flag_beam * self.beam_PyPIC_state.rho)
 
             if self.save_beam_potential:
-                self.phi_beam_last_track.append(self.beam_PyPIC_state.phi.copy())
+                self.phi_beam_last_track.append(flag_beam * self.beam_PyPIC_state.phi)
 
             if self.save_beam_field:
-                self.Ex_beam_last_track.append(self.beam_PyPIC_state.efx.copy())
-                self.Ey_beam_last_track.append(self.beam_PyPIC_state.efy.copy())
+                self.Ex_beam_last_track.append(flag_beam * self.beam_PyPIC_state.efx)
+                self.Ey_beam_last_track.append(flag_beam * self.beam_PyPIC_state.efy)
 
             if self.save_ele_MP_position:
                 self.x_MP_last_track.append(MPe_for_save.x_mp.copy())
-- 
2.43.0

