From 115c285e19f87c8f4d16a3910e64906388b5b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 01/27] fix: integrate the homogeneous part of u0 in its
 antiderivative when there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From eb07803d9a38802d9b3b22002354738cd69877eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 02/27] fix: use each optical depth's own layer scale factor in
 the isotropic-source antiderivative

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..c653cb3 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l_uniq], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l_uniq], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l_uniq], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l_uniq], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..596b699 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``NL``                                    |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -790,7 +790,7 @@ def _mathscr_v(tau,                             # Input optical depths
         d0 = np.einsum("lij, lj -> il", G, c0w, optimize=True)
 
         if is_antiderivative_wrt_tau:
-            p0 = tau / scale_tau                 
+            p0 = tau / scale_tau[l]                 
         else:
             p0 = np.ones_like(tau)       
 
@@ -812,7 +812,7 @@ def _mathscr_v(tau,                             # Input optical depths
         if is_antiderivative_wrt_tau:
             p0 = tau * tau / 2
             p1 = tau
-            return (d0[:, l] * p0[None, :] + d1[:, l] * p1[None, :]) / scale_tau
+            return (d0[:, l] * p0[None, :] + d1[:, l] * p1[None, :]) / scale_tau[l][None, :]
         else:
             p0 = tau
             p1 = np.ones_like(tau) 
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[l][:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From f47b0a568b3b7a735afa9d87ea70c9d8794f32f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:15 +0000
Subject: [PATCH 03/27] fix: index the layer scale factor once in the downward
 flux antiderivative

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index c653cb3..b50fbe4 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
-- 
2.43.0


From 003575948039a59e9372011b826eb69cc0f08767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:27 +0000
Subject: [PATCH 04/27] fix: evaluate the Fourier error from the last Fourier
 mode for any number of depths and layers

---
 .../_assemble_intensity_and_fluxes.py         | 38 +------------------
 1 file changed, 1 insertion(+), 37 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index b50fbe4..8c5c488 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -263,43 +263,7 @@ def _assemble_intensity_and_fluxes(
             output_is_tuple = False
 
             if return_Fourier_error:
-                exponent = np.concatenate(
-                    [
-                        K_collect[-1, l, :N] * (scaled_tau - scaled_tau_arr_lm1)[:, None],
-                        K_collect[-1, l, N:] * (scaled_tau - scaled_tau_arr_l)[:, None],
-                    ],
-                    axis=-1,
-                )
-                
-                direct_beam_contribution = 0
-                if is_antiderivative_wrt_tau:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
-                        )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it",
-                            GC_collect[-1, l, :, :],
-                            np.exp(exponent) / (scale_tau[:, None] * K_collect[-1, :, :])[l, :],
-                            optimize=True,
-                        )
-                        + direct_beam_contribution
-                    )
-                else:
-                    if there_is_beam_source:
-                        direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
-                        )
-
-                    ulast = (
-                        np.einsum(
-                            "tij, tj -> it", GC_collect[-1, l, :, :], np.exp(exponent), optimize=True
-                        )
-                        + direct_beam_contribution
-                    )
-        
+                ulast = um[-1, :, :] # The last Fourier mode
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From 5ce5b7d93eb7474213b227fac7581ab20a86e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 05/27] fix: accept NQuad/2 x NFourier boundary conditions as
 documented

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..ebf2dd1 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From 23367be0cdf88f30223e7bf155e68e1e13c1705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 06/27] fix: do not overwrite the caller's Legendre
 coefficients when correcting the zeroth one

---
 src/PythonicDISORT/pydisort.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ebf2dd1..0f2cbd7 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -245,6 +245,7 @@ def pydisort(
     # Value checks on the phase function Legendre coefficients
     if not np.all(omega_arr * Leg_coeffs_all[:, 0] == omega_arr):
         warnings.warn("The zeroth index phase function Legendre coefficient must be, and has been corrected to, 1.")
+        Leg_coeffs_all = Leg_coeffs_all.copy() # Do not modify the user's array
         Leg_coeffs_all[:, 0] = 1
     if not (np.all(-1 < Leg_coeffs_all[:, 1:]) and np.all(Leg_coeffs_all[:, 1:] < 1)):
         raise ValueError("The phase function Legendre coefficients must all be between -1 and 1 exclusive (only the zeroth coefficient can equal 1).")
-- 
2.43.0


From de92b9584bc282a8a80abea78e19573c08e56744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:00 +0000
Subject: [PATCH 07/27] fix: do not share tau_arr, f_arr and mu_arr between the
 output functions and the caller

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 8c5c488..0cfeec5 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -280,7 +280,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -389,7 +389,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (act_dscale_reclassification,)
@@ -483,7 +483,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -568,7 +568,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 0f2cbd7..558173d 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,11 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    tau_arr = np.atleast_1d(tau_arr).copy() # The output functions retain this array
     omega_arr = np.atleast_1d(omega_arr)
     Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy() # The output functions retain this array
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
@@ -696,7 +696,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From 16c6515200eb47c676d047350c37faa5bb57beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:21 +0000
Subject: [PATCH 08/27] fix: avoid dividing by zero when the only sources are
 interior isotropic sources

---
 src/PythonicDISORT/pydisort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 558173d..e73735b 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -359,6 +359,9 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if rescale_factor == 0:
+            # The only sources are interior to the atmosphere
+            rescale_factor = np.max(np.abs(scaled_s_poly_coeffs))
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
-- 
2.43.0


From 5a23cf949583d689681240b1a03010ade3ce10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:21 +0000
Subject: [PATCH 09/27] fix: reject any zero scale factor in
 affine_transform_poly_coeffs

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 596b699..ad0c5fd 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -591,7 +591,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From 5765c594b664e73cc73b5cbc24dfed97e974ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:21 +0000
Subject: [PATCH 10/27] fix: undo the source rescaling in the actinic flux
 reclassification

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 0cfeec5..d8a329c 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -392,7 +392,7 @@ def _assemble_intensity_and_fluxes(
             outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
-            outputs += (act_dscale_reclassification,)
+            outputs += (rescale_factor * act_dscale_reclassification,)
             outputs_len += 1
         return outputs[0] if outputs_len == 1 else outputs
         
-- 
2.43.0


From 58b036775345302fab6130ee020e3413c3cfbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:13 +0000
Subject: [PATCH 11/27] fix: return tau_arr, not the reclassification term,
 from the interpolated u0

---
 src/PythonicDISORT/subroutines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index ad0c5fd..6fded2c 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -672,14 +672,14 @@ def interpolate(u):
                 return np.squeeze(results)[()]
     
     elif argcount == 4: # Function is u0 instead of u
-        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_Fourier_error=False, return_tau_arr=False):
+        def u_interpol(mu, tau, is_antiderivative_wrt_tau=False, return_tau_arr=False):
             if not np.all(np.abs(mu) <= 1):
                 raise ValueError("mu values must be between -1 and 1.")
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            if return_tau_arr:
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -695,7 +695,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From 1d288bb54cb600c961d851c8571bad19a6b3f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:13 +0000
Subject: [PATCH 12/27] fix: accept cached scalar BDRF modes when there is a
 beam source

---
 src/PythonicDISORT/_solve_for_coeffs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..f234ab1 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,8 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
+                    # Cached scalar modes return a scalar
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
                     )[:, 0]
                     
         # --------------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From a03345305bd3db4fd43be8b23f6bd542d1a369b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:13 +0000
Subject: [PATCH 13/27] fix: distinguish mu0 from the single quadrature node in
 cached BDRF modes when N = 1

---
 src/PythonicDISORT/subroutines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 6fded2c..e315a16 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -537,7 +537,8 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    # If N = 1 the length of `neg_mup` cannot distinguish `mu0` from the quadrature node
+                    if len(neg_mup) == 1 and (N > 1 or neg_mup[0] == mu0)
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From fe1410e23168c8ee7ed6bb83820f27947e4bbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:26 +0000
Subject: [PATCH 14/27] fix: return a direct flux of the same size as tau when
 there is no beam source

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index d8a329c..c94d029 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -537,8 +537,8 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
-        direct_beam_scaled = 0
+        direct_beam = 0.0 * tau # Same size as `tau` even when there is no beam source
+        direct_beam_scaled = direct_beam
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
-- 
2.43.0


From cb088cf83659358ea641cafa171d2a2756091b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:05 +0000
Subject: [PATCH 15/27] fix: keep the mu axis of the NT corrections when there
 is one quadrature node per hemisphere

---
 src/PythonicDISORT/pydisort.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index e73735b..ab58c29 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -426,9 +426,7 @@ def pydisort(
             
             # mathscr_B
             # --------------------------------------------------------------------------------------------------------------------------
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(mu_arr, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(mu_arr, phi, -mu0, phi0).reshape((NQuad, Nphi))
             p_true = np.concatenate(
                 [
                     f(nu)[:, None, :]
@@ -615,9 +613,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape((N, len(phi)))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From 7953c8525c4f84c2ad08b776fbc82fc26fd48cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:01 +0000
Subject: [PATCH 16/27] fix: use each layer's own source in the TMS correction
 and avoid underflow in thick atmospheres

---
 src/PythonicDISORT/pydisort.py | 72 +++++++++++++++-------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index ab58c29..690c7df 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -431,24 +431,24 @@ def pydisort(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_Leg_coeffs_all[l_uniq])
+                    for f in map(Legendre, weighted_Leg_coeffs_all)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             p_trun = np.concatenate(
                 [
                     f(nu)[:, None, :]
                     # Iterates over the 0th axis
-                    for f in map(Legendre, weighted_scaled_Leg_coeffs[l_uniq])
+                    for f in map(Legendre, weighted_scaled_Leg_coeffs)
                 ],
                 axis=1,
-            ) # (NQuad, NLayers_uniq, Nphi)
+            ) # (NQuad, NLayers, Nphi)
             
             mathscr_B = (
-                (scaled_omega_arr[l_uniq] * I0_div_4pi)[None, :, None]
+                (scaled_omega_arr * I0_div_4pi)[None, :, None]
                 * (mu0 / (mu0 + mu_arr))[:, None, None]
-                * (p_true / (1 - f_arr)[None, l_uniq, None] - p_trun)
-            ) # (NQuad, NLayers_uniq, Nphi)
+                * (p_true / (1 - f_arr)[None, :, None] - p_trun)
+            ) # (NQuad, NLayers, Nphi); each layer contributes to the other layers with its own `mathscr_B`
             # --------------------------------------------------------------------------------------------------------------------------
             
             neg_scaled_tau_div_mu0 = -scaled_tau / mu0
@@ -484,7 +484,7 @@ def pydisort(
             ## Contribution from other layers
             # --------------------------------------------------------------------------------------------------------------------------
             solution = (
-                mathscr_B[:, l_inv, :]
+                mathscr_B[:, l, :]
                 * np.concatenate((TMS_correction_pos, TMS_correction_neg), axis=0)[:, :, None]
             )
             
@@ -502,19 +502,17 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
                 log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
 
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
+                decay = np.exp(log_decay)                                                      # (N, NLayers)
 
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # (N, Ntau)
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[l][None, :]
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -523,24 +521,21 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
-
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    # Reverse-scan (the decay factors are at most 1 so this cannot overflow):
+                    # Rpos[l] = layer_term_pos[l+1] * Bpos[l+1] + decay[l+1] * Rpos[l+1]
+                    Rpos = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1, 0, -1):
+                        Rpos.append(layer_term_pos[:, r, None] * Bpos[:, r, :] + decay[:, r, None] * Rpos[-1])
+                    Rpos = np.stack(Rpos[::-1], axis=1)                                         # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = Rpos[:, l, :] * expfac_pos[:, :, None]                                           # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -551,8 +546,6 @@ def pydisort(
                 # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
                 # ====================================================================
                 if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
                     # Ensure no positive exponents
                     thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
                     mask = (thickness_neg >= 0)
@@ -569,21 +562,18 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
-
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    # Forward-scan (the decay factors are at most 1 so this cannot overflow):
+                    # Rneg[l] = layer_term_neg[l-1] * Bneg[l-1] + decay[l-1] * Rneg[l-1]
+                    Rneg = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1):
+                        Rneg.append(layer_term_neg[:, r, None] * Bneg[:, r, :] + decay[:, r, None] * Rneg[-1])
+                    Rneg = np.stack(Rneg, axis=1)                                                # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = Rneg[:, l, :] * expfac_neg[:, :, None]                                            # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 72ca3df77ce6d66a52ecc1b27f3dfd80441959fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:01 +0000
Subject: [PATCH 17/27] fix: weight the IMS averages by layer thickness

---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 690c7df..1272950 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -590,14 +590,14 @@ def pydisort(
 
         # IMS correction for the intensity (see section 3.7.2)
         # --------------------------------------------------------------------------------------------------------------------------
-        sum1 = np.sum(omega_arr * tau_arr)
-        omega_avg = sum1 / np.sum(tau_arr)
-        sum2 = np.sum(f_arr * omega_arr * tau_arr)
+        sum1 = np.sum(omega_arr * thickness_arr)
+        omega_avg = sum1 / np.sum(thickness_arr)
+        sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
         Leg_coeffs_residue = Leg_coeffs_all.copy()
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
-            np.sum(Leg_coeffs_residue * omega_arr[:, None] * tau_arr[:, None], axis=0)
+            np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
             / sum2
         )
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
-- 
2.43.0


From 47c766b3f8f5bbf5bfa155caa24ff21bdea8df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:43 +0000
Subject: [PATCH 18/27] fix: skip the NT corrections when no scattering layer
 has a peak fraction

With a peak fraction only in non-scattering layers the averages of the IMS
correction were 0 / 0 and the intensity became NaN.
---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 1272950..2e2ce67 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -376,7 +376,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and np.any(omega_arr * f_arr > 0) and NLeg < NLeg_all:
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From a7d0bf8c8e7f8f5e7395eb578c235f21d8e9160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 19/27] fix: boundary conditions given as nested lists of zeros
 were not recognised as zero

---
 src/PythonicDISORT/pydisort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 2e2ce67..48ca028 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -196,9 +196,9 @@ def pydisort(
         NFourier = 1 # We only need to solve for the 0th Fourier mode to compute the flux
     elif NFourier is None:
         NFourier = NQuad
-    if np.all(b_pos == 0):
+    if np.all(np.equal(b_pos, 0)):
         b_pos = 0
-    if np.all(b_neg == 0):
+    if np.all(np.equal(b_neg, 0)):
         b_neg = 0
     if np.all(s_poly_coeffs == 0):
         Nscoeffs = 0
-- 
2.43.0


From bfdf1f58ab45b746d14e2b426f8c1d17c27bdf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:37 +0000
Subject: [PATCH 20/27] fix: IMS correction truncated the peak fractions when
 Leg_coeffs_all is of integer type

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 48ca028..83d2205 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -594,7 +594,7 @@ def pydisort(
         omega_avg = sum1 / np.sum(thickness_arr)
         sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
-        Leg_coeffs_residue = Leg_coeffs_all.copy()
+        Leg_coeffs_residue = Leg_coeffs_all.astype(float) # A copy which can hold `f_arr` even if the input is of integer type
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
             np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
-- 
2.43.0


From 166ed338a92cf053002650cab09b3097749e2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:30 +0000
Subject: [PATCH 21/27] fix: do not share the interpolators' values between
 concurrent calls of an interpolated function

---
 src/PythonicDISORT/subroutines.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index e315a16..c594ffa 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -1,5 +1,6 @@
 import numpy as np
 import scipy as sc
+from copy import copy
 from math import pi
 import warnings
 
@@ -660,12 +661,15 @@ def interpolate(u):
             mask_pos = mu > 0
             mask_else = ~mask_pos
             
+            # The interpolators are copied so that concurrent calls do not share their values
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                pos_interpol = copy(u_pos_interpol)
+                pos_interpol.set_yi(u_cache[:N])
+                results[mask_pos] = pos_interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                neg_interpol = copy(u_neg_interpol)
+                neg_interpol.set_yi(u_cache[N:])
+                results[mask_else] = neg_interpol(mu[mask_else])
             
             if return_Fourier_error or return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
@@ -689,12 +693,15 @@ def interpolate(u):
             mask_pos = mu > 0
             mask_else = ~mask_pos
             
+            # The interpolators are copied so that concurrent calls do not share their values
             if np.any(mask_pos):
-                u_pos_interpol.set_yi(u_cache[:N])
-                results[mask_pos] = u_pos_interpol(mu[mask_pos])
+                pos_interpol = copy(u_pos_interpol)
+                pos_interpol.set_yi(u_cache[:N])
+                results[mask_pos] = pos_interpol(mu[mask_pos])
             if np.any(mask_else):
-                u_neg_interpol.set_yi(u_cache[N:])
-                results[mask_else] = u_neg_interpol(mu[mask_else])
+                neg_interpol = copy(u_neg_interpol)
+                neg_interpol.set_yi(u_cache[N:])
+                results[mask_else] = neg_interpol(mu[mask_else])
             
             if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
-- 
2.43.0


From 4ce6913acd4f2c1cfad722ec5a6f4e9bcc884e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:48 +0000
Subject: [PATCH 22/27] fix: rescale by the largest magnitude among all
 sources, including interior and negative isotropic sources

---
 src/PythonicDISORT/pydisort.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 83d2205..fee35b5 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -350,18 +350,15 @@ def pydisort(
     # Refer to section 1.4 of the Comprehensive Documentation
     # --------------------------------------------------------------------------------------------------------------------------
     if there_is_iso_source:
+        # The isotropic source may be largest in the interior of the atmosphere and may be negative
         rescale_factor = np.max(
             (
                 I0,
-                np.max(b_pos),
-                np.max(b_neg),
-                scaled_s_poly_coeffs[0, 0],
-                scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
+                np.max(np.abs(b_pos)),
+                np.max(np.abs(b_neg)),
+                np.max(np.abs(scaled_s_poly_coeffs)),
             )
         )
-        if rescale_factor == 0:
-            # The only sources are interior to the atmosphere
-            rescale_factor = np.max(np.abs(scaled_s_poly_coeffs))
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
-- 
2.43.0


From 29d12d7759678be2a5e5285bb76ada95dd8d56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:14 +0000
Subject: [PATCH 23/27] fix: evaluate the IMS correction where the scaled beam
 cosine (almost) equals a quadrature cosine

The closed form divides 0 by 0 there (nan) and loses all digits nearby.
---
 src/PythonicDISORT/pydisort.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index fee35b5..3a2411c 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -601,19 +601,22 @@ def pydisort(
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
             nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape((N, len(phi)))
-            x = 1 / mu_arr_pos - 1 / scaled_mu0
+            decay = np.exp(-tau / scaled_mu0)[None, :]
+            x = (1 / mu_arr_pos - 1 / scaled_mu0)[:, None] * tau[None, :]
+            # `h` is `(x - 1 + exp(-x)) / x**2`, times `decay`, which is expanded
+            # about 0 where an angle is (almost) `scaled_mu0` to avoid dividing 0 by 0
+            x_is_small = np.abs(x) < 1e-2
+            x_large = np.where(x_is_small, 1, x)
+            h = np.where(
+                x_is_small,
+                (1 / 2 - x / 6 + x**2 / 24 - x**3 / 120 + x**4 / 720) * decay,
+                ((x_large - 1) * decay + np.exp(-tau[None, :] / mu_arr_pos[:, None])) / x_large**2,
+            )
             if is_antiderivative_wrt_tau:
-                chi = (
-                    (scaled_mu0 - x[:, None] * scaled_mu0 * (scaled_mu0 + tau)[None, :])
-                    * np.exp(-tau / scaled_mu0)[None, :]
-                    - mu_arr_pos[:, None] * np.exp(-tau[None, :] / mu_arr_pos[:, None])
-                ) / (mu_arr_pos * scaled_mu0 * x**2)[:, None]
+                chi = -(scaled_mu0 + tau)[None, :] * decay - (tau**2 / scaled_mu0)[None, :] * h
             else:
-                chi = (
-                    (tau[None, :] - 1 / x[:, None]) * np.exp(-tau / scaled_mu0)[None, :]
-                    + np.exp(-tau[None, :] / mu_arr_pos[:, None]) / x[:, None]
-                ) / (mu_arr_pos * scaled_mu0 * x)[:, None]
-                
+                chi = (tau**2 / scaled_mu0)[None, :] / mu_arr_pos[:, None] * h
+
             return (
                 I0_div_4pi
                 * (omega_avg * f_avg) ** 2
-- 
2.43.0


From 3c995da9eb9ec181ae8de3130a3c966a01b417c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:50 +0000
Subject: [PATCH 24/27] fix: compute the factorials of isotropic-source
 polynomials in floating point, they overflowed from 22 coefficients

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c594ffa..e2e774c 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -846,7 +846,7 @@ def _mathscr_v(tau,                             # Input optical depths
         fac = np.empty(Nscoeffs)
         fac[0] = 1
         if Nscoeffs > 1:
-            fac[1:] = np.cumprod(np.arange(1, Nscoeffs))
+            fac[1:] = np.cumprod(np.arange(1.0, Nscoeffs))
         fac_rev = fac[::-1]
         inv_fac_rev = 1 / fac_rev
 
-- 
2.43.0


From 5e5a41016b6653a0c36d85cb654535f53b3a92ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:46 +0000
Subject: [PATCH 25/27] fix: transform isotropic-source polynomials of 35 or
 more coefficients, their integer binomials became Python objects

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index e2e774c..6df7056 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -598,7 +598,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
     Ncoeffs_arange = np.arange(Ncoeffs)
-    pascal = sc.linalg.pascal(Ncoeffs, kind="upper")
+    pascal = sc.linalg.pascal(Ncoeffs, kind="upper", exact=False)
     pow_for_shifts = np.where(
         pascal == 0, 0, Ncoeffs_arange[None, :] - Ncoeffs_arange[:, None]
     )
-- 
2.43.0


From a9258574812f46ca88507fdf787f29770f4daaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:26 +0000
Subject: [PATCH 26/27] fix: depths and azimuths of integer type no longer
 overflow or wrap around

Powers of integer depths in the isotropic source overflowed, negated
unsigned depths and subtracted unsigned azimuths wrapped around, and the
cosine of small integers has half precision.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 10 +++++-----
 src/PythonicDISORT/pydisort.py                       |  4 ++--
 src/PythonicDISORT/subroutines.py                    |  3 ++-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index c94d029..ab17893 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -176,8 +176,8 @@ def _assemble_intensity_and_fluxes(
             Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
             to switch to an antiderivative of this function with respect to `tau`.
             """
-            tau = np.atleast_1d(tau)
-            phi = np.atleast_1d(phi)
+            tau = np.atleast_1d(tau) * 1.0 # Integer types may overflow or wrap around
+            phi = np.atleast_1d(phi) * 1.0
             if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
                 raise ValueError("tau input outside the tau range specified for the atmosphere (check `tau_arr`).")
             
@@ -305,7 +305,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * 1.0 # Integer types may overflow or wrap around
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
         
@@ -414,7 +414,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * 1.0 # Integer types may overflow or wrap around
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
         
@@ -496,7 +496,7 @@ def _assemble_intensity_and_fluxes(
         Pass `is_antiderivative_wrt_tau = True` (defaults to `False`)
         to switch to an antiderivative of this function with respect to `tau`.
         """
-        tau = np.atleast_1d(tau)
+        tau = np.atleast_1d(tau) * 1.0 # Integer types may overflow or wrap around
         if np.any(tau < 0) or np.any(tau > tau_arr[-1]):
             raise ValueError("tau input outside the tau range given for the atmosphere (check `tau_arr`).")
 
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 3a2411c..06a50af 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -637,8 +637,8 @@ def pydisort(
             return_Fourier_error=False,
             return_tau_arr=False,
         ):
-            tau = np.atleast_1d(tau)
-            phi = np.atleast_1d(phi)
+            tau = np.atleast_1d(tau) * 1.0 # Integer types may overflow or wrap around
+            phi = np.atleast_1d(phi) * 1.0
 
             u_star_outputs = u_star(
                 tau,
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 6df7056..af69e5d 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -104,7 +104,8 @@ def calculate_nu(mu, phi, mu_p, phi_p):
         Cosine of scattering angles which axes capture variation with ``mu, phi, mu_p, phi_p`` respectively.
 
     """
-    mu, phi, mu_p, phi_p = np.atleast_1d(mu, phi, mu_p, phi_p)
+    # Integer types may wrap around and the cosine of the small ones has half precision
+    mu, phi, mu_p, phi_p = (np.atleast_1d(x) * 1.0 for x in (mu, phi, mu_p, phi_p))
     nu = mu_p[None, None, :, None] * mu[:, None, None, None] + np.sqrt(1 - mu_p**2)[
         None, None, :, None
     ] * np.sqrt(1 - mu**2)[:, None, None, None] * np.cos(
-- 
2.43.0


From d3d0d9f01a893a80f9aff3af419761965b63aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:03 +0000
Subject: [PATCH 27/27] fix: negative boundary values without other sources
 gave zero fields

The rescale factor was zero if no boundary value, beam or internal source
was positive, and it multiplies every output.
---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 06a50af..53f08cd 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -364,7 +364,7 @@ def pydisort(
         b_neg = (b_neg / rescale_factor).copy()
         scaled_s_poly_coeffs = (scaled_s_poly_coeffs / rescale_factor).copy()
     else:
-        rescale_factor = np.max((I0, np.max(b_pos), np.max(b_neg)))
+        rescale_factor = np.max((I0, np.max(np.abs(b_pos)), np.max(np.abs(b_neg))))
         if rescale_factor != 0:
             I0 = (I0 / rescale_factor).copy()
             b_pos = (b_pos / rescale_factor).copy()
-- 
2.43.0

