From 0aafa98b49e2627aabdfdd1d63b27abb8933af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:08 +0000
Subject: [PATCH 01/25] fix: u0 antiderivative mode without a beam source

The homogeneous part was only integrated when there was a beam source.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index a2c0d60..e3a0ce2 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -379,7 +379,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        if is_antiderivative_wrt_tau and there_is_beam_source:
+        if is_antiderivative_wrt_tau:
             if there_is_beam_source:
                 direct_beam_contribution = (B_collect_0.T / (-scale_tau / mu0)[None, :])[
                     :, l
-- 
2.43.0


From fb7461c8916b70d167e0b1896df3a04ecf4487fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:34 +0000
Subject: [PATCH 02/25] fix: antiderivative of the isotropic-source solution in
 multi-layer atmospheres

The delta-scale factors have to be those of the layer of each tau point.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/subroutines.py                    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index e3a0ce2..cfe8a41 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -236,7 +236,7 @@ def _assemble_intensity_and_fluxes(
             if there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
                 _mathscr_v_contribution = _mathscr_v(
-                    scaled_tau, scale_tau, l_inv, 
+                    scaled_tau, scale_tau[l], l_inv, 
                     Nscoeffs,
                     scaled_s_poly_coeffs[l_uniq],
                     G_collect_0[l_uniq],
@@ -411,7 +411,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq],
@@ -470,7 +470,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, :N, :],
@@ -552,7 +552,7 @@ def _assemble_intensity_and_fluxes(
         if there_is_iso_source:
             l_uniq, l_inv = np.unique(l, return_inverse=True)
             _mathscr_v_contribution = _mathscr_v(
-                scaled_tau, scale_tau, l_inv,
+                scaled_tau, scale_tau[l], l_inv,
                 Nscoeffs,
                 scaled_s_poly_coeffs[l_uniq],
                 G_collect_0[l_uniq, N:, :],
diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 19d239c..f26be56 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -744,7 +744,7 @@ def to_diag_ordered_form(A, Nsuperdiags, Nsubdiags):
 
     
 def _mathscr_v(tau,                             # Input optical depths
-               scale_tau,                       # Delta-scale factor for tau
+               scale_tau,                       # Delta-scale factor for each input optical depth
                l,                               # Layer index of each input optical depth
                Nscoeffs,                        # Number of isotropic source polynomial coefficients
                s_poly_coeffs,                   # Polynomial coefficients of isotropic source
@@ -764,7 +764,7 @@ def _mathscr_v(tau,                             # Input optical depths
     |          Variable             |                   Shape                   |
     | ----------------------------- | ----------------------------------------- |
     | ``tau``                       | ``Ntau``                                  |
-    | ``scale_tau``                 | `NLayers`                                 |
+    | ``scale_tau``                 | ``Ntau``                                  |
     | ``l``                         | ``Ntau``                                  |
     | ``Nscoeffs``                  | scalar                                    |
     | ``s_poly_coeffs``             | ``NL x Nscoeffs``                         |
@@ -855,7 +855,7 @@ def _mathscr_v(tau,                             # Input optical depths
         powers = np.arange(Nscoeffs - 1, -1, -1)[None, :]
         if is_antiderivative_wrt_tau:
             p = powers + 1
-            tau_poly = (tau[:, None] ** p) / (p * scale_tau)
+            tau_poly = (tau[:, None] ** p) / (p * scale_tau[:, None])
         else:
             tau_poly = tau[:, None] ** powers
 
-- 
2.43.0


From 720ca6d400510e6a98b03b6ee4fcbc1a06c94068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:34 +0000
Subject: [PATCH 03/25] fix: downward flux antiderivative in multi-layer
 atmospheres

The division was by the factors of the tau points instead of those of the layers.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index cfe8a41..ab697aa 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -577,7 +577,7 @@ def _assemble_intensity_and_fluxes(
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, l])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
+                direct_beam_contribution = (B_neg / (-scale_tau / mu0)[None, :])[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                 direct_beam = I0 * mu0 * np.exp(-tau / mu0) * -mu0
                 direct_beam_scaled = I0 * mu0 * np.exp(-scaled_tau / mu0) / (-scale_tau / mu0)[None, l]
             
-- 
2.43.0


From 5801ec063047812be5aa45da8e138097ff7361b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:20 +0000
Subject: [PATCH 04/25] fix: Fourier error with a beam source or a single
 Fourier mode

The beam contribution was indexed by angle instead of by Fourier mode and the
internal sources were left out of the zeroth mode.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index ab697aa..7e79b68 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -275,7 +275,7 @@ def _assemble_intensity_and_fluxes(
                 if is_antiderivative_wrt_tau:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, :] / (-scale_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T / (-scale_tau / mu0)[None, :]
                         )[:, l] * np.exp(-scaled_tau / mu0)[None, :]
 
                     ulast = (
@@ -290,7 +290,7 @@ def _assemble_intensity_and_fluxes(
                 else:
                     if there_is_beam_source:
                         direct_beam_contribution = (
-                            B_collect.T[-1, :, l] * np.exp(-scaled_tau / mu0)[None, :]
+                            B_collect[-1, :, :].T[:, l] * np.exp(-scaled_tau / mu0)[None, :]
                         )
 
                     ulast = (
@@ -300,6 +300,10 @@ def _assemble_intensity_and_fluxes(
                         + direct_beam_contribution
                     )
         
+                # If there is only one Fourier mode then it includes the isotropic internal sources
+                if there_is_iso_source and NFourier == 1:
+                    ulast = ulast + _mathscr_v_contribution
+
                 u_abs = np.abs(u)
                 Fourier_error = np.max(
                     np.divide(
-- 
2.43.0


From 5a83b5d2e96b5eb76b2b6c8b04e8ac2872c7bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:37 +0000
Subject: [PATCH 05/25] fix: accept boundary conditions specified for each
 Fourier mode

Arrays of shape (NQuad/2, NFourier) were mistaken for vectors (or for scalars if
there are only two streams).
---
 src/PythonicDISORT/pydisort.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 897550f..123a8ea 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -271,15 +271,15 @@ def pydisort(
         if not (0 <= phi0 and phi0 < 2 * pi):
             raise ValueError("Provide the principal azimuthal angle for the incident beam (must be between 0 and 2pi, excluding 2pi).")
     # Ensure that the BC inputs are of the correct shape
-    if len(np.atleast_1d(b_pos)) == 1:
+    if np.ndim(b_pos) < 2 and np.size(b_pos) == 1:
         b_pos_is_scalar = True
-    elif len(b_pos) == N:
+    elif np.shape(b_pos) == (N,):
         b_pos_is_vector = True
     elif not np.shape(b_pos) == (N, NFourier):
         raise ValueError("The shape of the bottom boundary condition is incorrect.")
-    if len(np.atleast_1d(b_neg)) == 1:
+    if np.ndim(b_neg) < 2 and np.size(b_neg) == 1:
         b_neg_is_scalar = True
-    elif len(b_neg) == N:
+    elif np.shape(b_neg) == (N,):
         b_neg_is_vector = True
     elif not np.shape(b_neg) == (N, NFourier):
         raise ValueError("The shape of the top boundary condition is incorrect.")
-- 
2.43.0


From 4f61fd1aa3d7a31d61cf17e12143063a768f604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:13 +0000
Subject: [PATCH 06/25] fix: NaN results if the internal source vanishes at
 both boundaries

The rescale factor was zero in the absence of other sources.
---
 src/PythonicDISORT/pydisort.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 123a8ea..17b51c3 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -358,6 +358,8 @@ def pydisort(
                 scaled_s_poly_coeffs[-1, :] @ (scaled_tau_arr_with_0[-1] ** np.arange(Nscoeffs))
             )
         )
+        if not rescale_factor > 0: # The internal source could vanish at both boundaries
+            rescale_factor = np.max(np.abs(scaled_s_poly_coeffs))
         I0 = (I0 / rescale_factor).copy()
         b_pos = (b_pos / rescale_factor).copy()
         b_neg = (b_neg / rescale_factor).copy()
-- 
2.43.0


From fbad8b850d59d7e6de1b253cfe0fb6cb86aa76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:13 +0000
Subject: [PATCH 07/25] fix: reject any zero scale factor in
 affine_transform_poly_coeffs

Only the case of all scale factors being zero was rejected.
---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f26be56..ec5d692 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -591,7 +591,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
         Array with columns [D_0, D_1, ..., D_n]. 
         The rows correspond to different affine transformations.
     """
-    if np.any(a_arr) == 0:
+    if np.any(a_arr == 0):
         raise ValueError("The scale factors must be non-zero.") 
     
     Ntransformations, Ncoeffs = np.shape(poly_coeffs)
-- 
2.43.0


From ae98147ca45273d14a800bd9cf736c86975deaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:13 +0000
Subject: [PATCH 08/25] fix: accept cached scalar BDRF modes together with a
 beam source

These return a scalar, which cannot be indexed.
---
 src/PythonicDISORT/_solve_for_coeffs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_coeffs.py b/src/PythonicDISORT/_solve_for_coeffs.py
index 5290d3a..3995f85 100644
--- a/src/PythonicDISORT/_solve_for_coeffs.py
+++ b/src/PythonicDISORT/_solve_for_coeffs.py
@@ -129,9 +129,9 @@ def _solve_for_coeffs(
                 mathscr_D_neg = (1 + m_equals_0 * 1) * BDRF_Fourier_modes_m(mu_arr_pos, mu_arr_pos)
                 R = mathscr_D_neg * mu_arr_pos_times_W[None, :]
                 if there_is_beam_source:
-                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * BDRF_Fourier_modes_m(
-                        mu_arr_pos, np.array([mu0])
-                    )[:, 0]
+                    mathscr_X_pos = (mu0 * I0_div_4pi * 4) * np.broadcast_to(
+                        BDRF_Fourier_modes_m(mu_arr_pos, np.array([mu0])), (N, 1)
+                    )[:, 0] # Cached BDRF modes can return a scalar
                     
         # --------------------------------------------------------------------------------------------------------------------------
     
-- 
2.43.0


From 74badd731072583270d6c317f785ed3704188bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:05 +0000
Subject: [PATCH 09/25] fix: cached BDRF modes with respect to mu0 for two
 streams

The value for mu0 was also returned for the only quadrature angle.
---
 src/PythonicDISORT/subroutines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index ec5d692..3eb5393 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -537,7 +537,8 @@ def cache_BDRF_Fourier_modes(N, BDRF_Fourier_modes, mu0=0):
                 if np.isscalar(BDRF_Fourier_modes_evaluated[m])
                 else (
                     BDRF_Fourier_modes_evaluated[m][:, [-1]]
-                    if len(neg_mup) == 1
+                    # If `N = 1` then `mu_arr_pos` also has length 1
+                    if len(neg_mup) == 1 and not (N == 1 and neg_mup[0] == mu_arr_pos[0])
                     else BDRF_Fourier_modes_evaluated[m][:, :-1]
                 )
             )
-- 
2.43.0


From b76714249352c5a32ee341f77995949603c352bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:05 +0000
Subject: [PATCH 10/25] fix: undo the rescaling of sources in the
 reclassification of actinic flux

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 7e79b68..3c5c458 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -363,12 +363,14 @@ def _assemble_intensity_and_fluxes(
             # in performing the reclassification of delta-scaled actinic flux
             if _return_act_dscale_for_reclass: 
                 if is_antiderivative_wrt_tau:
-                    act_dscale_reclassification = (
+                    act_dscale_reclassification = rescale_factor * (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
                     )
                 else:
-                    act_dscale_reclassification = I0 * np.exp(-scaled_tau / mu0) - I0 * np.exp(-tau / mu0)
+                    act_dscale_reclassification = rescale_factor * (
+                        I0 * np.exp(-scaled_tau / mu0) - I0 * np.exp(-tau / mu0)
+                    )
         else:
             scaled_tau = tau
             if _return_act_dscale_for_reclass:
-- 
2.43.0


From 68f97682986d1cf058a15cbb46c1eab55da61d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:05 +0000
Subject: [PATCH 11/25] fix: NaN actinic flux with delta-M scaling if there is
 no beam (mu0 = 0)

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 3c5c458..864d73d 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -362,7 +362,9 @@ def _assemble_intensity_and_fluxes(
             # The following complements the function `subroutines.generate_diff_act_flux_funcs`
             # in performing the reclassification of delta-scaled actinic flux
             if _return_act_dscale_for_reclass: 
-                if is_antiderivative_wrt_tau:
+                if not there_is_beam_source:
+                    act_dscale_reclassification = 0
+                elif is_antiderivative_wrt_tau:
                     act_dscale_reclassification = rescale_factor * (
                         I0 * np.exp(-scaled_tau / mu0) / (-scale_tau[l] / mu0)
                         - I0 * np.exp(-tau / mu0) * -mu0
-- 
2.43.0


From 4f19fcbd4c5735fb56742b35956ddbf6ae52a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 12/25] fix: flags of the interpolated zeroth Fourier mode

`return_tau_arr` was passed to a private argument of `u0`.
---
 src/PythonicDISORT/subroutines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 3eb5393..92217d7 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -679,8 +679,8 @@ def interpolate(u):
             
             mu = np.atleast_1d(mu)
 
-            if return_Fourier_error or return_tau_arr:
-                u_outputs = u(tau, is_antiderivative_wrt_tau, return_Fourier_error, return_tau_arr)
+            if return_tau_arr: # There is no Fourier error for `u0`
+                u_outputs = u(tau, is_antiderivative_wrt_tau, return_tau_arr)
                 u_cache = u_outputs[0]
             else:
                 u_cache = u(tau, is_antiderivative_wrt_tau)
@@ -696,7 +696,7 @@ def interpolate(u):
                 u_neg_interpol.set_yi(u_cache[N:])
                 results[mask_else] = u_neg_interpol(mu[mask_else])
             
-            if return_Fourier_error or return_tau_arr:
+            if return_tau_arr:
                 return (np.squeeze(results)[()],) + u_outputs[1:]
             else:
                 return np.squeeze(results)[()]
-- 
2.43.0


From 438d060c10038233a4f7d41f76634cefde423e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 13/25] fix: do not modify or alias the input arrays of
 pydisort

`Leg_coeffs_all` was corrected in place, and later changes to `tau_arr` or `f_arr`
by the caller altered the output functions.
---
 src/PythonicDISORT/pydisort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 17b51c3..691ca11 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -181,11 +181,12 @@ def pydisort(
     
     # Turn floats into arrays
     # --------------------------------------------------------------------------------------------------------------------------
-    tau_arr = np.atleast_1d(tau_arr)
+    # Copies are made so that the arrays of the caller and those of the output functions are independent
+    tau_arr = np.atleast_1d(tau_arr).copy()
     omega_arr = np.atleast_1d(omega_arr)
-    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all)
+    Leg_coeffs_all = np.atleast_2d(Leg_coeffs_all).copy()
     s_poly_coeffs = np.atleast_2d(s_poly_coeffs)
-    f_arr = np.atleast_1d(f_arr)
+    f_arr = np.atleast_1d(f_arr).copy()
     # --------------------------------------------------------------------------------------------------------------------------
     
     # Setup
-- 
2.43.0


From 646d034ebc2e3986cc00850230f4457296f9c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 14/25] fix: do not hand out the internal arrays of the output
 functions

Changing the returned `tau_arr` or `mu_arr` altered subsequent results.
---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 8 ++++----
 src/PythonicDISORT/pydisort.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 864d73d..6bc019d 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -320,7 +320,7 @@ def _assemble_intensity_and_fluxes(
                 output_is_tuple = True
                 
             if return_tau_arr:
-                outputs += (tau_arr,)
+                outputs += (tau_arr.copy(),)
                 output_is_tuple = True
             
             if _return_l: # This indicates to the function that NT corrections are activated
@@ -433,7 +433,7 @@ def _assemble_intensity_and_fluxes(
         outputs = (rescale_factor * np.squeeze(u0),)
         outputs_len = 1
         if return_tau_arr:
-            outputs += (tau_arr,)
+            outputs += (tau_arr.copy(),)
             outputs_len += 1
         if _return_act_dscale_for_reclass:
             outputs += (act_dscale_reclassification,)
@@ -527,7 +527,7 @@ def _assemble_intensity_and_fluxes(
         flux = 2 * pi * (mu_arr_pos * W) @ u0_pos
         
         if return_tau_arr:
-            return rescale_factor * np.squeeze(flux)[()], tau_arr
+            return rescale_factor * np.squeeze(flux)[()], tau_arr.copy()
         else:
             return rescale_factor * np.squeeze(flux)[()]
 
@@ -612,7 +612,7 @@ def _assemble_intensity_and_fluxes(
             return (
                 rescale_factor * np.squeeze(diffuse_flux)[()],
                 rescale_factor * np.squeeze(direct_beam)[()],
-                tau_arr
+                tau_arr.copy()
             )
         else:
             return (
diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 691ca11..9e7938c 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -698,7 +698,7 @@ def pydisort(
 
         # --------------------------------------------------------------------------------------------------------------------------
 
-        return mu_arr, flux_up, flux_down, u0, u_corrected
+        return mu_arr.copy(), flux_up, flux_down, u0, u_corrected
         
     else:
         return (mu_arr,) + _assemble_intensity_and_fluxes(
-- 
2.43.0


From a6a58e154114cab4b36ee5109dfdab086611b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 15/25] fix: direct flux without a beam source has the size of
 tau

---
 src/PythonicDISORT/_assemble_intensity_and_fluxes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
index 6bc019d..063c813 100644
--- a/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
+++ b/src/PythonicDISORT/_assemble_intensity_and_fluxes.py
@@ -581,7 +581,7 @@ def _assemble_intensity_and_fluxes(
         )
         
         direct_beam_contribution = 0
-        direct_beam = 0
+        direct_beam = np.zeros(len(tau))
         direct_beam_scaled = 0
         if is_antiderivative_wrt_tau:
             if there_is_beam_source:
-- 
2.43.0


From 14d32a3621869fc4c0d75c9c9a33375758e76f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:29 +0000
Subject: [PATCH 16/25] fix: NaN intensity corrections if delta-M scaling only
 affects non-scattering layers

---
 src/PythonicDISORT/pydisort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 9e7938c..bc90cae 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -375,7 +375,7 @@ def pydisort(
     I0_div_4pi = I0 / (4 * pi)
     # --------------------------------------------------------------------------------------------------------------------------
     
-    if NT_cor and not only_flux and there_is_beam_source and np.any(f_arr > 0) and NLeg < NLeg_all and np.any(omega_arr > 0):
+    if NT_cor and not only_flux and there_is_beam_source and NLeg < NLeg_all and np.any(omega_arr * f_arr > 0):
         
         ############################### Perform NT corrections on the intensity but not the flux ###############################
         ############################### Refer to section 3.7.2 of the Comprehensive Documentation ##############################
-- 
2.43.0


From 26e9aca8823f3eaaaec88349acc7c19188fe0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:45 +0000
Subject: [PATCH 17/25] fix: weight the layer averages of the IMS correction by
 layer thickness

The weights were the optical depths of the lower layer boundaries, so that the
correction changed when a homogeneous layer was subdivided.
---
 src/PythonicDISORT/pydisort.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index bc90cae..b943ca2 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -601,14 +601,15 @@ def pydisort(
 
         # IMS correction for the intensity (see section 3.7.2)
         # --------------------------------------------------------------------------------------------------------------------------
-        sum1 = np.sum(omega_arr * tau_arr)
-        omega_avg = sum1 / np.sum(tau_arr)
-        sum2 = np.sum(f_arr * omega_arr * tau_arr)
+        # The layer averages are weighted by the optical thickness of each layer
+        sum1 = np.sum(omega_arr * thickness_arr)
+        omega_avg = sum1 / np.sum(thickness_arr)
+        sum2 = np.sum(f_arr * omega_arr * thickness_arr)
         f_avg = sum2 / sum1
         Leg_coeffs_residue = Leg_coeffs_all.copy()
         Leg_coeffs_residue[:, :NLeg] = np.tile(f_arr, (NLeg, 1)).T
         Leg_coeffs_residue_avg = (
-            np.sum(Leg_coeffs_residue * omega_arr[:, None] * tau_arr[:, None], axis=0)
+            np.sum(Leg_coeffs_residue * omega_arr[:, None] * thickness_arr[:, None], axis=0)
             / sum2
         )
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
-- 
2.43.0


From 7227beeb8720de938b171b448ab98dcd97d79c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:45 +0000
Subject: [PATCH 18/25] fix: intensity corrections for two streams and multiple
 azimuthal angles

The squeezed scattering angle cosines were reshaped incorrectly.
---
 src/PythonicDISORT/pydisort.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index b943ca2..eb33d70 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -615,9 +615,7 @@ def pydisort(
         scaled_mu0 = mu0 / (1 - omega_avg * f_avg)
 
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
-            nu = subroutines.atleast_2d_append(
-                subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0)
-            )
+            nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
             if is_antiderivative_wrt_tau:
                 chi = (
-- 
2.43.0


From 3b4560c00954d315d3a3b4209abb2fb04efd8e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:22 +0000
Subject: [PATCH 19/25] fix: TMS correction in multi-layer atmospheres

The contribution of another layer was computed with the phase function and albedo of
the layer of evaluation instead of its own, its antiderivative with the delta-scale
factor of the wrong layer, and the division by underflowed attenuation factors gave NaN
in optically thick atmospheres.
---
 src/PythonicDISORT/pydisort.py | 59 ++++++++++++++++------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index eb33d70..5aaa9c9 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -413,7 +413,10 @@ def pydisort(
             Ntau = len(tau)
             Nphi = len(phi)
             # Atmospheric layer indices
-            if not there_is_iso_source:
+            if is_atmos_multilayered:
+                # All layers contribute to the correction
+                l_uniq, l_inv = np.arange(NLayers), l
+            elif not there_is_iso_source:
                 l_uniq, l_inv = np.unique(l, return_inverse=True)
             scaled_tau_arr_l = scaled_tau_arr_with_0[1:][l]
             scaled_tau_arr_lm1 = scaled_tau_arr_with_0[l]
@@ -503,19 +506,17 @@ def pydisort(
                 )  # (Nlayers, )
 
 
-                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers_uniq, Nphi)
-                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers_uniq, Nphi)
+                Bpos = mathscr_B[:N, :, :]                       # (N, NLayers, Nphi)
+                Bneg = mathscr_B[N:, :, :]                       # (N, NLayers, Nphi)
 
                 # decay[n,r] = exp(-scaled_thickness_arr[r]/mu[n]); always <= 1
                 log_decay = -scaled_thickness_arr[None, :] * M_inv[:, None]                    # (N, NLayers)
 
-                # decay_prod[n,k] = prod_{m=0}^{k-1} decay[n,m], with decay_prod[:,0]=1
-                log_decay_prod = np.cumsum(log_decay, axis=1) # The cumsum requires ALL layers; `l_uniq` is inapplicable
-                decay_prod = np.concatenate((np.ones((N, 1)), np.exp(log_decay_prod)), axis=1) # (N, NLayers + 1)
+                decay = np.exp(log_decay)                                                      # (N, NLayers)
 
                 if is_antiderivative_wrt_tau:
-                    # (N, NLayers)
-                    integration_factor = mu_arr_pos[:, None] / scale_tau
+                    # The factor is that of the layer of each `tau`; (N, Ntau)
+                    integration_factor = mu_arr_pos[:, None] / scale_tau[l][None, :]
 
                 # ====================================================================
                 # POS: pre-accumulate "contribution from below" sums Rpos[N, l, Nphi]
@@ -524,24 +525,22 @@ def pydisort(
                     thickness_pos = scaled_thickness_arr[None, :] * (M_inv + mu0_inv)[:, None]  # (N, NLayers); always > 0
                     # em1_pos = 1 - exp(-scaled_thickness_arr*(1/mu + 1/mu0)) = -expm1(-thickness_pos)
                     em1_pos = -np.expm1(-thickness_pos)                                         # (N, NLayers)
-                    if is_antiderivative_wrt_tau:
-                        em1_pos = integration_factor * em1_pos
 
                     layer_term_pos = em1_pos * exp_taufront_mu0_inv[None, :]                    # (N, NLayers)
+                    layer_term_pos = layer_term_pos[:, :, None] * Bpos                          # (N, NLayers, Nphi)
 
-                    # Reverse-scan via cumsum:
-                    # Rpos[l] = (1/decay_prod[l+1]) * sum_{r=l+1..} (layer_term_pos[r] * decay_prod[r])
-                    weighted_layer_term_pos = layer_term_pos * decay_prod[:, :NLayers]          # (N, NLayers)
-                    cumsum_pos = np.cumsum(weighted_layer_term_pos[:, ::-1], axis=1)[:, ::-1]   # (N, NLayers)
-
-                    Rpos_rest = cumsum_pos[:, 1:] / decay_prod[:, 1 : NLayers]                  # (N, NLayers - 1)
-                    Rpos = np.concatenate([Rpos_rest, np.zeros((N, 1))], axis=1)                # (N, NLayers)
+                    # Reverse-scan: Rpos[l] = layer_term_pos[l+1] + decay[l+1] * Rpos[l+1]
+                    Rpos = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1, 0, -1):
+                        Rpos.append(layer_term_pos[:, r, :] + decay[:, r, None] * Rpos[-1])
+                    Rpos = np.stack(Rpos[::-1], axis=1)                                         # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     # expfac_pos = exp(M_inv*tau) * exp(-M_inv*scaled_tauwith0_back[l])
                     expfac_pos = np.exp(M_inv[:, None] * (scaled_tau - scaled_tauwith0_back[l])[None, :])  # (N, Ntau)
-                    tmp = np.take(Rpos, l, axis=1)                                                         # (N, Ntau)
-                    tmp = (tmp * expfac_pos)[:, :, None] * Bpos[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_pos = integration_factor * expfac_pos
+                    tmp = Rpos[:, l, :] * expfac_pos[:, :, None]                                           # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :] + tmp, solution[N:, :, :]), axis=0)
@@ -552,8 +551,6 @@ def pydisort(
                 # NEG: pre-accumulate "contribution from above" sums Rneg[N, l, Nphi]
                 # ====================================================================
                 if any_neg:
-                    decay = np.exp(log_decay)                                                    # (N, NLayers)
-                    
                     # Ensure no positive exponents
                     thickness_neg = scaled_thickness_arr[None, :] * (M_inv - mu0_inv)[:, None]   # (N, NLayers)
                     mask = (thickness_neg >= 0)
@@ -570,21 +567,19 @@ def pydisort(
                     layer_term_posthick = -em1_neg * exp_x1                                      # (N, NLayers)
                     layer_term_neg = layer_term_posthick * mask + layer_term_negthick * (~mask)  # (N, NLayers)
 
-                    if is_antiderivative_wrt_tau:
-                        layer_term_neg = -integration_factor * layer_term_neg
+                    layer_term_neg = layer_term_neg[:, :, None] * Bneg                           # (N, NLayers, Nphi)
 
-                    # Forward-scan via cumsum:
-                    # Rneg[l] = decay_prod[l] * sum_{r<l} layer_term_neg[r] / decay_prod[r+1]
-                    weighted_layer_term_neg = layer_term_neg / decay_prod[:, 1:]                 # (N, NLayers)
-                    cumsum_neg = np.cumsum(weighted_layer_term_neg, axis=1)                      # (N, NLayers)
-                    
-                    Rneg_rest = decay_prod[:, 1 : NLayers] * cumsum_neg[:, :-1]                  # (N, NLayers - 1)
-                    Rneg = np.concatenate([np.zeros((N, 1)), Rneg_rest], axis=1)                 # (N, NLayers)
+                    # Forward-scan: Rneg[l] = layer_term_neg[l-1] + decay[l-1] * Rneg[l-1]
+                    Rneg = [np.zeros((N, Nphi))]
+                    for r in range(NLayers - 1):
+                        Rneg.append(layer_term_neg[:, r, :] + decay[:, r, None] * Rneg[-1])
+                    Rneg = np.stack(Rneg, axis=1)                                                # (N, NLayers, Nphi)
 
                     # Apply to all `tau`
                     expfac_neg = np.exp(M_inv[:, None] * (scaled_tauwith0_front[l] - scaled_tau)[None, :])  # (N, Ntau)
-                    tmp = np.take(Rneg, l, axis=1)                                                          # (N, Ntau)
-                    tmp = (tmp * expfac_neg)[:, :, None] * Bneg[:, l_inv, :]
+                    if is_antiderivative_wrt_tau:
+                        expfac_neg = -integration_factor * expfac_neg
+                    tmp = Rneg[:, l, :] * expfac_neg[:, :, None]                                            # (N, Ntau, Nphi)
                     
                     if autograd_compatible:
                         solution = np.concatenate((solution[:N, :, :], solution[N:, :, :] + tmp), axis=0)
-- 
2.43.0


From 653970803027ed5d4158d2c6b65d42cf611a93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 20/25] fix: precision of the IMS correction near quadrature
 angles

The closed forms divide by x = 1/mu - 1/scaled_mu0 (squared), which may vanish for
valid inputs: the corrected intensity lost all precision or became NaN.
---
 src/PythonicDISORT/pydisort.py | 37 ++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/PythonicDISORT/pydisort.py b/src/PythonicDISORT/pydisort.py
index 5aaa9c9..474605b 100644
--- a/src/PythonicDISORT/pydisort.py
+++ b/src/PythonicDISORT/pydisort.py
@@ -612,17 +612,42 @@ def pydisort(
         def IMS_correction(tau, phi, is_antiderivative_wrt_tau):
             nu = subroutines.calculate_nu(-mu_arr_pos, phi, -mu0, phi0).reshape(N, len(phi))
             x = 1 / mu_arr_pos - 1 / scaled_mu0
+            # The closed forms below lose precision as `x` vanishes and are replaced by Taylor expansions about `x = 0`
             if is_antiderivative_wrt_tau:
+                use_expansion = np.abs(x * scaled_mu0) < 1e-2
+                x_closed = np.where(use_expansion, 1, x)
                 chi = (
-                    (scaled_mu0 - x[:, None] * scaled_mu0 * (scaled_mu0 + tau)[None, :])
+                    (scaled_mu0 - x_closed[:, None] * scaled_mu0 * (scaled_mu0 + tau)[None, :])
                     * np.exp(-tau / scaled_mu0)[None, :]
                     - mu_arr_pos[:, None] * np.exp(-tau[None, :] / mu_arr_pos[:, None])
-                ) / (mu_arr_pos * scaled_mu0 * x**2)[:, None]
+                ) / (mu_arr_pos * scaled_mu0 * x_closed**2)[:, None]
+                if np.any(use_expansion):
+                    z = np.minimum(tau / scaled_mu0, 700)
+                    term = z
+                    partial_sum = 1 + z
+                    expansion = -scaled_mu0
+                    for k in range(2, 9):
+                        term = term * z / k
+                        partial_sum = partial_sum + term
+                        expansion = expansion + (
+                            (scaled_mu0**2 / mu_arr_pos * (-x * scaled_mu0) ** (k - 2))[:, None]
+                            * (1 - np.exp(-z) * partial_sum)[None, :]
+                        )
+                    chi = np.where(use_expansion[:, None], expansion, chi)
             else:
-                chi = (
-                    (tau[None, :] - 1 / x[:, None]) * np.exp(-tau / scaled_mu0)[None, :]
-                    + np.exp(-tau[None, :] / mu_arr_pos[:, None]) / x[:, None]
-                ) / (mu_arr_pos * scaled_mu0 * x)[:, None]
+                x_tau = x[:, None] * tau[None, :]
+                use_expansion = np.abs(x_tau) < 1e-2
+                x_closed = np.where(use_expansion, 1, x[:, None])
+                chi = np.where(
+                    use_expansion,
+                    tau[None, :] ** 2
+                    * (1 / 2 - x_tau / 6 + x_tau**2 / 24 - x_tau**3 / 120 + x_tau**4 / 720)
+                    * np.exp(-tau / scaled_mu0)[None, :],
+                    (
+                        (tau[None, :] - 1 / x_closed) * np.exp(-tau / scaled_mu0)[None, :]
+                        + np.exp(-tau[None, :] / mu_arr_pos[:, None]) / x_closed
+                    ) / x_closed,
+                ) / (mu_arr_pos * scaled_mu0)[:, None]
                 
             return (
                 I0_div_4pi
-- 
2.43.0


From 0d5e0ad0948bfb602734e6c330e251e2ff67aeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 21/25] fix: particular solution if 1/mu0 is an eigenvalue

Round numbers suffice (two streams, isotropic scattering, omega = 0.75, mu0 = 1):
pydisort raised LinAlgError or returned NaN or wrong results.
---
 src/PythonicDISORT/_solve_for_gen_and_part_sols.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index d85f3ec..75e77d2 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -197,6 +197,13 @@ def _solve_for_gen_and_part_sols(
         G_collect[no_shortcut_indices, :N, N:] = GpG_m_GmG_div_2
         G_collect[no_shortcut_indices, N:, :N] = GpG_m_GmG_div_2
         
+        if there_is_beam_source:
+            # The particular solution w.r.t. direct beam source is singular if `1 / mu0` is an eigenvalue
+            # This is avoided by a negligible relative change of the optical thickness of such layers
+            resonant = np.any(np.abs(K_arr_pos * mu0 - 1) < 1e-8, axis=1)
+            K_arr[resonant, :] *= 1 + 2e-8
+            A_arr[resonant, :, :] *= 1 + 2e-8
+        
         K_collect[no_shortcut_indices, :] = K_arr
         len_no_shortcut_indices_0 = len(no_shortcut_indices_0)
         if len_no_shortcut_indices_0 > 0: # If there is no isotropic source this list will be empty
-- 
2.43.0


From ed0a398308ec9a57ed66a311953cbb40a2d9c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:46 +0000
Subject: [PATCH 22/25] fix: precision of the Planck function at low
 wavenumbers

---
 src/PythonicDISORT/subroutines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index 92217d7..f992245 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -345,7 +345,9 @@ def Planck(T, WVNM):
         
         # Coded in this way to prevent overflow
         expterm = np.exp(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]))
-        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / (1 - expterm)
+        # `1 - expterm` loses precision at low wavenumbers or high temperatures
+        one_minus_expterm = -np.expm1(-100 * sc.constants.h * sc.constants.c * WVNM / (sc.constants.k * T[not_zeros_ind]))
+        results[not_zeros_ind] = (2e8 * sc.constants.h * sc.constants.c**2 * WVNM**3 * expterm) / one_minus_expterm
         
     return np.squeeze(results)[()]
     
-- 
2.43.0


From 22143ae9dc8906fd6bd43dd6f8f59da26be448f6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 23/25] fix: overflow of powers of integer depths in the
 internal source solution

---
 src/PythonicDISORT/subroutines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index f992245..c674734 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -783,6 +783,7 @@ def _mathscr_v(tau,                             # Input optical depths
     else:
         import numpy as np
 
+    tau = 1.0 * tau  # Powers of integer depths could overflow
     K_inv = 1 / K  # (NL, NQuad)
 
     # --------------------- Nscoeffs == 1 ---------------------
-- 
2.43.0


From 0bcdc274dec3090ffd3e13b84aaff09dc6dcc178 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 24/25] fix: overflow of powers of integer translations in
 affine_transform_poly_coeffs

---
 src/PythonicDISORT/subroutines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PythonicDISORT/subroutines.py b/src/PythonicDISORT/subroutines.py
index c674734..25f5779 100644
--- a/src/PythonicDISORT/subroutines.py
+++ b/src/PythonicDISORT/subroutines.py
@@ -607,7 +607,7 @@ def affine_transform_poly_coeffs(poly_coeffs, a_arr, b_arr):
     T = (
         pascal[None, :, :]
         * (1 / a_arr)[:, None, None] ** (Ncoeffs_arange[None, None, :])
-        * (-b_arr[:, None, None]) ** pow_for_shifts[None, :, :]
+        * (-1.0 * b_arr[:, None, None]) ** pow_for_shifts[None, :, :]  # Powers of integers could overflow
     )  # Transformation matrix for the polynomial coefficients
     
     return np.einsum("lij, lj -> li", T, poly_coeffs, optimize=True)
-- 
2.43.0


From 7555521e622bb30d2217690a18d056365f93d05e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:31:00 +0000
Subject: [PATCH 25/25] fix: ComplexWarning for every problem with multiple
 scattering (NumPy 2.5)

---
 src/PythonicDISORT/_solve_for_gen_and_part_sols.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
index 75e77d2..75e42f0 100644
--- a/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
+++ b/src/PythonicDISORT/_solve_for_gen_and_part_sols.py
@@ -183,14 +183,15 @@ def _solve_for_gen_and_part_sols(
         )
         
         # Eigenvalues arranged negative then positive, from largest to smallest magnitude
+        # NumPy may return these real eigenvalues and eigenvectors as complex arrays
         K_arr_pos = np.sqrt(K_squared_arr)
-        K_arr = np.concatenate((-K_arr_pos, K_arr_pos), axis=1)
+        K_arr = np.concatenate((-K_arr_pos, K_arr_pos), axis=1).real
         
         # Build eigenvector matrix from four blocks
         eigenvecs_GpG_arr /= 2
         eigenvecs_GmG_arr = np.einsum("lij, ljk -> lik", apb, eigenvecs_GpG_arr / K_arr_pos[:, None, :], optimize=True)
-        GpG_p_GmG_div_2 = eigenvecs_GpG_arr + eigenvecs_GmG_arr
-        GpG_m_GmG_div_2 = eigenvecs_GpG_arr - eigenvecs_GmG_arr
+        GpG_p_GmG_div_2 = (eigenvecs_GpG_arr + eigenvecs_GmG_arr).real
+        GpG_m_GmG_div_2 = (eigenvecs_GpG_arr - eigenvecs_GmG_arr).real
         
         G_collect[no_shortcut_indices, :N, :N] = GpG_p_GmG_div_2
         G_collect[no_shortcut_indices, N:, N:] = GpG_p_GmG_div_2
-- 
2.43.0

