From 3ce4412059a669521b963fac6f3ff9574eff8284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:24 +0000
Subject: [PATCH 01/26] fix: pick the decaying kz branch for absorbing
 half-spaces (numpy, jax)

conj(sqrt(n^2 - k^2)) is the outgoing/decaying root only for a lossless medium; with an
absorbing (n - ik) substrate every order was given the growing branch. Same rule as the
torch backend.
---
 meent/on_jax/emsolver/transfer_method.py   | 33 ++++++++++++----------
 meent/on_numpy/emsolver/transfer_method.py | 33 ++++++++++++----------
 2 files changed, 36 insertions(+), 30 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index 1399c25..fcd8a58 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -4,14 +4,21 @@ import jax.numpy as jnp
 from .primitives import eig, conj, meeinv
 
 
+def outgoing_kz(n, k_par2):
+    """z component (over k0) of an outgoing order in a half-space of index n (n - ik for an absorbing medium).
+
+    exp(-1j*kz*z) must not grow away from the structure, so Re(kz) >= 0 and Im(kz) <= 0. Conjugating the principal root
+    does that only for a lossless medium.
+    """
+    evanescent = abs(k_par2) > abs(jnp.real(n)) ** 2
+    return jnp.where(evanescent, -1j * (k_par2 - n ** 2) ** 0.5, (n ** 2 - k_par2) ** 0.5)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=jnp.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
-
-    kz_top = kz_top.conjugate()
-    kz_bot = kz_bot.conjugate()
+    kz_top = outgoing_kz(n_top, kx ** 2)
+    kz_bot = outgoing_kz(n_bot, kx ** 2)
 
     F = jnp.eye(ff_x, dtype=type_complex)
 
@@ -205,11 +212,9 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy).astype(type_complex)
     O = jnp.zeros((ff_xy, ff_xy)).astype(type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
+    kz_top = outgoing_kz(n_top, k_par2).flatten()
+    kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
@@ -486,11 +491,9 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     I = jnp.eye(ff_xy, dtype=type_complex)
     O = jnp.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
+    kz_top = outgoing_kz(n_top, k_par2).flatten()
+    kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
     varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = jnp.diag(kz_bot)
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 3b7027e..343ace6 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -3,14 +3,21 @@ import numpy as np
 from .primitives import meeinv
 
 
+def outgoing_kz(n, k_par2):
+    """z component (over k0) of an outgoing order in a half-space of index n (n - ik for an absorbing medium).
+
+    exp(-1j*kz*z) must not grow away from the structure, so Re(kz) >= 0 and Im(kz) <= 0. Conjugating the principal root
+    does that only for a lossless medium.
+    """
+    evanescent = abs(k_par2) > abs(np.real(n)) ** 2
+    return np.where(evanescent, -1j * (k_par2 - n ** 2) ** 0.5, (n ** 2 - k_par2) ** 0.5)
+
+
 def transfer_1d_1(pol, kx, n_top, n_bot, type_complex=np.complex128):
     ff_x = len(kx)
 
-    kz_top = (n_top ** 2 - kx ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2) ** 0.5
-
-    kz_top = kz_top.conj()
-    kz_bot = kz_bot.conj()
+    kz_top = outgoing_kz(n_top, kx ** 2)
+    kz_bot = outgoing_kz(n_bot, kx ** 2)
 
     F = np.eye(ff_x, dtype=type_complex)
 
@@ -143,11 +150,9 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
+    kz_top = outgoing_kz(n_top, k_par2).flatten()
+    kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
@@ -388,11 +393,9 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     I = np.eye(ff_xy, dtype=type_complex)
     O = np.zeros((ff_xy, ff_xy), dtype=type_complex)
 
-    kz_top = (n_top ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-    kz_bot = (n_bot ** 2 - kx ** 2 - ky.reshape((-1, 1)) ** 2) ** 0.5
-
-    kz_top = kz_top.flatten().conj()
-    kz_bot = kz_bot.flatten().conj()
+    k_par2 = kx ** 2 + ky.reshape((-1, 1)) ** 2
+    kz_top = outgoing_kz(n_top, k_par2).flatten()
+    kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
     varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
     Kz_bot = np.diag(kz_bot)
-- 
2.43.0


From 29bcbea68cb8c63be6d3f72c107976f20a864923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:24 +0000
Subject: [PATCH 02/26] fix: jax conv_solve_field called a method that does not
 exist

---
 meent/on_jax/emsolver/rcwa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 2839f68..5712ce6 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -290,15 +290,15 @@ class RCWAJax(_BaseRCWA):
             print('CFT (fourier_type=1) is not supported with JAX jit-compilation. Use conv_solve_field_no_jit.')
             return None, None, None
 
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res.de_ri, res.de_ti, field_cell
 
     @jax_device_set
     def conv_solve_field_no_jit(self, res_x=20, res_y=20, res_z=20, set_field_input=(True, False, False)):
-        de_ri, de_ti, _, _ = self._conv_solve()
+        res = self.conv_solve()
         field_cell = self.calculate_field(res_x, res_y, res_z, set_field_input)
-        return de_ri, de_ti, field_cell
+        return res.de_ri, res.de_ti, field_cell
 
     def run_ucell_vmap(self, ucell_list):
         """
-- 
2.43.0


From ee44add415b72eddb160296877919639fb7d2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:24 +0000
Subject: [PATCH 03/26] fix: torch te/tm-incidence amplitudes use the
 convention of the main result

R_p, T_s and T_p of res_te_inc/res_tm_inc lacked the conjugation, branch orientation and
1j/n factor applied to res, so res != sin(psi)*res_te_inc + cos(psi)*res_tm_inc.
---
 meent/on_torch/emsolver/transfer_method.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 631e3ce..68f725a 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -476,13 +476,13 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
@@ -757,13 +757,13 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     final_RT_tetm = final_A_inv @ final_B_tetm
 
     R_s_tetm = (final_RT_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
-    R_p_tetm = ((-1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    R_p_tetm = ((1j/n_top)*final_RT_tetm[ff_xy: 2 * ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     big_T1_tetm = final_RT_tetm[2 * ff_xy:, :]
     big_T_tetm = big_T_tetm @ big_T1_tetm
 
-    T_s_tetm = big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))
-    T_p_tetm = (-1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))
+    T_s_tetm = (big_T_tetm[:ff_xy, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
+    T_p_tetm = ((1j/n_bot)*big_T_tetm[ff_xy:, :].T.reshape((2, ff_y, ff_x))).conj() * phase_conv
 
     de_ri_s_tetm = (R_s_tetm * R_s_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
-- 
2.43.0


From f556644a2be9b61c2d0baf09f1156c289f3d5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:45 +0000
Subject: [PATCH 04/26] fix: torch p-polarised transmission efficiency for
 absorbing substrates

---
 meent/on_torch/emsolver/transfer_method.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 68f725a..133ea83 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -438,11 +438,14 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     T_s = (big_T[:ff_xy, :].reshape((ff_y, ff_x))).conj() * phase_conv
     T_p = ((1j/n_bot)*big_T[ff_xy:, :].reshape((ff_y, ff_x))).conj() * phase_conv
 
+    # T_p is an electric amplitude (H / n_bot): its flux is |n_bot * T_p|^2 * Re(kz_bot / n_bot^2).
+    n_bot_ratio = abs(n_bot) ** 2 / n_bot ** 2
+
     de_ri_s = (R_s * R_s.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * n_bot_ratio / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -488,7 +491,7 @@ def transfer_1d_conical_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, p
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot * n_bot_ratio / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
@@ -719,11 +722,14 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     T_s = (big_T[:ff_xy, :].reshape((ff_y, ff_x))).conj() * phase_conv
     T_p = ((1j/n_bot)*big_T[ff_xy:, :].reshape((ff_y, ff_x))).conj() * phase_conv
 
+    # T_p is an electric amplitude (H / n_bot): its flux is |n_bot * T_p|^2 * Re(kz_bot / n_bot^2).
+    n_bot_ratio = abs(n_bot) ** 2 / n_bot ** 2
+
     de_ri_s = (R_s * R_s.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
     de_ri_p = (R_p * R_p.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s = (T_s * T_s.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p = (T_p * T_p.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p = (T_p * T_p.conj() * (kz_bot * n_bot_ratio / (n_top * torch.cos(theta))).real).real
 
     de_ri = de_ri_s + de_ri_p
     de_ti = de_ti_s + de_ti_p
@@ -769,7 +775,7 @@ def transfer_2d_4(kx, ff_x, ff_y, big_F, big_G, big_T, kz_top, kz_bot, psi, thet
     de_ri_p_tetm = (R_p_tetm * R_p_tetm.conj() * (kz_top / (n_top * torch.cos(theta))).real).real
 
     de_ti_s_tetm = (T_s_tetm * T_s_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
-    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot / (n_top * torch.cos(theta))).real).real
+    de_ti_p_tetm = (T_p_tetm * T_p_tetm.conj() * (kz_bot * n_bot_ratio / (n_top * torch.cos(theta))).real).real
 
     de_ri_tetm = de_ri_s_tetm + de_ri_p_tetm
     de_ti_tetm = de_ti_s_tetm + de_ti_p_tetm
-- 
2.43.0


From 0d7a2193705edd32f739a3b3b0652072ac9efcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:00 +0000
Subject: [PATCH 05/26] fix: orders with kx = 0 made conical and 2D results
 non-finite

An order leaving exactly along the y-z plane (kx == 0, e.g. theta = 30 deg with
period = 2 wavelengths and phi = 0) divided ky by zero when its azimuth was
computed: NaN azimuth, singular matrix or NaN efficiencies.
---
 meent/on_jax/emsolver/transfer_method.py   | 4 ++--
 meent/on_numpy/emsolver/transfer_method.py | 4 ++--
 meent/on_torch/emsolver/transfer_method.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/emsolver/transfer_method.py b/meent/on_jax/emsolver/transfer_method.py
index fcd8a58..c85eaf1 100644
--- a/meent/on_jax/emsolver/transfer_method.py
+++ b/meent/on_jax/emsolver/transfer_method.py
@@ -216,7 +216,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = outgoing_kz(n_top, k_par2).flatten()
     kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -495,7 +495,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=jnp.complex128):
     kz_top = outgoing_kz(n_top, k_par2).flatten()
     kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
-    varphi = jnp.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = jnp.arctan(ky.reshape((-1, 1)) / jnp.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = jnp.diag(kz_bot)
 
     big_F = jnp.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_numpy/emsolver/transfer_method.py b/meent/on_numpy/emsolver/transfer_method.py
index 343ace6..4f1855a 100644
--- a/meent/on_numpy/emsolver/transfer_method.py
+++ b/meent/on_numpy/emsolver/transfer_method.py
@@ -154,7 +154,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = outgoing_kz(n_top, k_par2).flatten()
     kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
@@ -397,7 +397,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, type_complex=np.complex128):
     kz_top = outgoing_kz(n_top, k_par2).flatten()
     kz_bot = outgoing_kz(n_bot, k_par2).flatten()
 
-    varphi = np.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = np.arctan(ky.reshape((-1, 1)) / np.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = np.diag(kz_bot)
 
     big_F = np.block([[I, O], [O, 1j * Kz_bot / (n_bot ** 2)]])
diff --git a/meent/on_torch/emsolver/transfer_method.py b/meent/on_torch/emsolver/transfer_method.py
index 133ea83..158b9de 100644
--- a/meent/on_torch/emsolver/transfer_method.py
+++ b/meent/on_torch/emsolver/transfer_method.py
@@ -223,7 +223,7 @@ def transfer_1d_conical_1(kx, ky, n_top, n_bot, device='cpu', type_complex=torch
 
     # varphi = torch.arctan(ky / kx_vector)
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = torch.diag(kz_bot)
 
 
@@ -531,7 +531,7 @@ def transfer_2d_1(kx, ky, n_top, n_bot, device=torch.device('cpu'), type_complex
     kz_top = kz_top.flatten()
     kz_bot = kz_bot.flatten()
 
-    varphi = torch.arctan(ky.reshape((-1, 1)) / kx).flatten()
+    varphi = torch.arctan(ky.reshape((-1, 1)) / torch.where(kx == 0, 1E-20, kx)).flatten()
     Kz_bot = torch.diag(kz_bot)
 
     big_F = torch.cat(
-- 
2.43.0


From 65762a83b1ebc0b0a07cd6e2d7ba10e1560e4115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:56 +0000
Subject: [PATCH 06/26] fix: rotated rectangle drawn wrong when its two split
 counts differ

---
 meent/on_jax/modeler/modeling.py   | 12 ++++++------
 meent/on_numpy/modeler/modeling.py | 12 ++++++------
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 1747ca4..9527f2d 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -191,13 +191,13 @@ class ModelingJax:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * jnp.arange(n_split_parallelogram + 1).reshape(
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * jnp.arange(n_split_parallelogram + 1).reshape(
                 (-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -207,7 +207,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
@@ -270,7 +270,7 @@ class ModelingJax:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * jnp.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * jnp.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -285,7 +285,7 @@ class ModelingJax:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * jnp.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * jnp.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -305,7 +305,7 @@ class ModelingJax:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * jnp.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * jnp.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * jnp.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index acd0f50..90c119b 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -166,12 +166,12 @@ class ModelingNumpy:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * np.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * np.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * np.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * np.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -179,7 +179,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * np.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -240,7 +240,7 @@ class ModelingNumpy:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * np.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * np.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * np.ones(n_split_triangle + 1).reshape((-1, 1))
@@ -255,7 +255,7 @@ class ModelingNumpy:
             #     yyy_cp.append(y)
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * np.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * np.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -275,7 +275,7 @@ class ModelingNumpy:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * np.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * np.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * np.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index c492e5c..2359dc5 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -208,12 +208,12 @@ class ModelingTorch:
 
             # 1: Upper triangle
             xxx1 = top1[0] - (top1[0] - top2[0]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle+1).reshape((-1, 1))
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             xxx_cp1 = xxx1 + length / n_split_triangle * torch.arange(n_split_triangle+1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle+1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_triangle * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
+            xxx2 = top2[0] + (top3_cp[0] - top2[0]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(n_split_parallelogram+1).reshape((-1, 1))
             xxx_cp2 = (xxx2 + length) * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
             yyy_cp2 = yyy2 * torch.ones(n_split_parallelogram+1).reshape((-1, 1))
@@ -221,7 +221,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] + (top4[0] - top3_cp[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
 
             xxx_cp3 = xxx3 + length / n_split_triangle * torch.arange(n_split_triangle, -1, -1).reshape((-1, 1))
@@ -246,13 +246,13 @@ class ModelingTorch:
             # 1: Top triangle
             xxx1 = top1[0] + (top2[0] - top1[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_parallelogram * torch.arange(n_split_triangle + 1).reshape(
+            yyy1 = top1[1] - (top1[1] - top2[1]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
             xxx_cp1 = xxx1 - length / n_split_triangle * torch.arange(n_split_triangle + 1).reshape((-1, 1))
             yyy_cp1 = yyy1 * torch.ones(n_split_triangle + 1).reshape((-1, 1))
 
             # 2: Mid parallelogram
-            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_triangle * torch.arange(
+            xxx2 = top2[0] - (top2[0] - top3_cp[0]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
             yyy2 = top2[1] - (top2[1] - top3_cp[1]) / n_split_parallelogram * torch.arange(
                 n_split_parallelogram + 1).reshape((-1, 1))
@@ -262,7 +262,7 @@ class ModelingTorch:
             # 3: Lower triangle
             xxx3 = top3_cp[0] - (top3_cp[0] - top4[0]) / n_split_triangle * torch.arange(n_split_triangle + 1).reshape(
                 (-1, 1))
-            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_parallelogram * torch.arange(
+            yyy3 = top3_cp[1] - (top3_cp[1] - top4[1]) / n_split_triangle * torch.arange(
                 n_split_triangle + 1).reshape(
                 (-1, 1))
 
-- 
2.43.0


From fef23e07f787f0a273be58295d3756cf25b152be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:42 +0000
Subject: [PATCH 07/26] fix: an ellipse whose outline is symmetric about its
 top point was not drawn

---
 meent/on_jax/modeler/modeling.py   | 4 ++--
 meent/on_numpy/modeler/modeling.py | 4 ++--
 meent/on_torch/modeler/modeling.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 9527f2d..dce0e4c 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -434,7 +434,7 @@ class ModelingJax:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1] // 2):
@@ -450,7 +450,7 @@ class ModelingJax:
             arr = arr.at[:, ::2].set(jnp.stack(right_array, axis=1))
             arr = arr.at[:, 1::2].set(jnp.stack(left_array, axis=1))
 
-        elif left_y < right_y:
+        else:
             # arr[:, ::2] = jnp.stack(left_array, axis=1)
             # arr[:, 1::2] = jnp.stack(right_array, axis=1)
 
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 90c119b..74c7bc0 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -455,7 +455,7 @@ class ModelingNumpy:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -467,7 +467,7 @@ class ModelingNumpy:
         if left_y > right_y:
             arr[:, ::2] = np.stack(right_array, axis=1)
             arr[:, 1::2] = np.stack(left_array, axis=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = np.stack(left_array, axis=1)
             arr[:, 1::2] = np.stack(right_array, axis=1)
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 2359dc5..0285303 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -358,7 +358,7 @@ class ModelingTorch:
 
         if left_y > right_y:
             right_array.append(points_contour_rot[:, y_highest_index])
-        elif left_y < right_y:
+        else:
             left_array.append(points_contour_rot[:, y_highest_index])
 
         for i in range(points_contour_rot.shape[1]//2):
@@ -370,7 +370,7 @@ class ModelingTorch:
         if left_y > right_y:
             arr[:, ::2] = torch.stack(right_array, dim=1)
             arr[:, 1::2] = torch.stack(left_array, dim=1)
-        elif left_y < right_y:
+        else:
             arr[:, ::2] = torch.stack(left_array, dim=1)
             arr[:, 1::2] = torch.stack(right_array, dim=1)
 
-- 
2.43.0


From 220d979d153fc317a3e7e302401ab8dbdb87bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 08/26] fix: tabulated material with rows out of order was
 interpolated wrongly

---
 meent/on_jax/modeler/modeling.py   | 3 ++-
 meent/on_numpy/modeler/modeling.py | 3 ++-
 meent/on_torch/modeler/modeling.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index dce0e4c..4854ea7 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -757,7 +757,8 @@ def read_material_table(nk_path=None, type_complex=jnp.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = type_complex(data)
 
         elif name[-3:] == 'mat':
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 74c7bc0..97cb2cc 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -771,7 +771,8 @@ def read_material_table(nk_path=None, type_complex=np.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = data.astype(type_complex)
 
         elif name[-3:] == 'mat':
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 0285303..31c3a9c 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -697,7 +697,8 @@ def read_material_table(nk_path=None, type_complex=torch.complex128):
             if spec is not None:
                 mat_table[name[:-4].upper()] = spec
                 continue
-            data = np.loadtxt(path, skiprows=1)
+            data = np.loadtxt(path, skiprows=1, ndmin=2)
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = data.astype(type_complex)
 
         elif name[-3:] == 'mat':
-- 
2.43.0


From 7340ae35bf95fc7e5362d195700c24b01e9a9f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:20 +0000
Subject: [PATCH 09/26] fix: a refused fto array no longer stays in force

The fto setters stored the raw list of an array before checking its length, so an
array of three orders raised ValueError but left itself (unchecked) as the value in use.
---
 meent/on_jax/emsolver/_base.py   | 16 ++++++++--------
 meent/on_numpy/emsolver/_base.py | 16 ++++++++--------
 meent/on_torch/emsolver/_base.py | 16 ++++++++--------
 3 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index ac7c77f..c48f583 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -183,16 +183,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray) or isinstance(fto, jnp.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index 230a482..d5e697a 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -155,16 +155,16 @@ class _BaseRCWA:
             else:
                 raise ValueError
         elif isinstance(fto, np.ndarray):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError
         elif type(fto) in (int, float):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 919f4a2..33d04bb 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -193,16 +193,16 @@ class _BaseRCWA:
             else:
                 raise ValueError('Torch fto')
         elif isinstance(fto, np.ndarray) or isinstance(fto, torch.Tensor):
-            self._fto = fto.tolist()
-            if type(self._fto) is list:
-                if len(self._fto) == 1:
-                    self._fto = [int(self._fto[0]), 0]
-                elif len(self._fto) == 2:
-                    self._fto = [int(v) for v in self._fto]
+            fto = fto.tolist()
+            if type(fto) is list:
+                if len(fto) == 1:
+                    self._fto = [int(fto[0]), 0]
+                elif len(fto) == 2:
+                    self._fto = [int(v) for v in fto]
                 else:
                     raise ValueError('Torch fto')
-            elif type(self._fto) in (int, float):
-                self._fto = [int(self._fto), 0]
+            elif type(fto) in (int, float):
+                self._fto = [int(fto), 0]
             else:
                 raise ValueError('Torch fto')
         elif type(fto) in (int, float):
-- 
2.43.0


From 6ce22cf474657cd9ffc888ea7c634b895210e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:22 +0000
Subject: [PATCH 10/26] fix: JAX refuses cells of an unsupported scalar type

A cell of dtype uint8, bool or float16 was silently ignored and the previous cell stayed
in use; NumPy raises ValueError for the same input.
---
 meent/on_jax/emsolver/rcwa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/meent/on_jax/emsolver/rcwa.py b/meent/on_jax/emsolver/rcwa.py
index 5712ce6..3c86efc 100644
--- a/meent/on_jax/emsolver/rcwa.py
+++ b/meent/on_jax/emsolver/rcwa.py
@@ -102,6 +102,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (jnp.complex128, jnp.complex64):
                 dtype = self.type_complex
                 self._ucell = ucell.astype(dtype)
+            else:
+                raise ValueError
 
         elif isinstance(ucell, np.ndarray):  # Raster
             self._modeling_type_assigned = 0
@@ -111,6 +113,8 @@ class RCWAJax(_BaseRCWA):
             elif ucell.dtype in (np.complex128, np.complex64):
                 dtype = self.type_complex
                 self._ucell = jnp.array(ucell, dtype=dtype)
+            else:
+                raise ValueError
 
         elif type(ucell) is list:  # Vector
             self._modeling_type_assigned = 1
-- 
2.43.0


From d26681ad9d8d7dc7bad327ba2ef6fc5f0455d820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:51 +0000
Subject: [PATCH 11/26] fix: torch device setter accepts the names the
 constructor accepts

---
 meent/on_torch/emsolver/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 33d04bb..6f66dc4 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -85,9 +85,9 @@ class _BaseRCWA:
 
     @device.setter
     def device(self, device):
-        if device == 0:
+        if device in (0, 'cpu'):
             self._device = torch.device('cpu')
-        elif device == 1:
+        elif device in (1, 'gpu', 'cuda'):
             self._device = torch.device('cuda')
         elif type(device) is torch.device:
             self._device = device
-- 
2.43.0


From acdb31859fc171d9f911647806f17340fd269b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:51 +0000
Subject: [PATCH 12/26] fix: torch solver without an explicit period raised
 instead of using the default

---
 meent/on_torch/modeler/modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 31c3a9c..3b348f9 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -58,7 +58,7 @@ class Compress(torch.autograd.Function):
 
 
 class ModelingTorch:
-    def __init__(self, period=None, *args, **kwargs):
+    def __init__(self, period=(1., 1.), *args, **kwargs):
 
         self.ucell = None
         self.ucell_vector = None
-- 
2.43.0


From 99e3fcc37d645a3240196d9016baad433a8610ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:20 +0000
Subject: [PATCH 13/26] fix: a one-row cell with y orders requested crashed in
 the conical formulation

---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_numpy/emsolver/_base.py | 2 +-
 meent/on_torch/emsolver/_base.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index c48f583..61c0c0d 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -344,7 +344,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * jnp.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_numpy/emsolver/_base.py b/meent/on_numpy/emsolver/_base.py
index d5e697a..d891530 100644
--- a/meent/on_numpy/emsolver/_base.py
+++ b/meent/on_numpy/emsolver/_base.py
@@ -288,7 +288,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * np.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 6f66dc4..85c8388 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -336,7 +336,7 @@ class _BaseRCWA:
         self.T1 = None
 
         ff_x = self.fto[0] * 2 + 1
-        ff_y = 1
+        ff_y = self.fto[1] * 2 + 1
 
         k0 = 2 * torch.pi / wavelength
         kx, ky = self.get_kx_ky_vector(wavelength)
-- 
2.43.0


From 47549537203c24dfa90b479133a602c4c20ccf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:22 +0000
Subject: [PATCH 14/26] fix: drawing a layer modified the coordinate lists of
 the caller

---
 meent/on_jax/modeler/modeling.py   | 2 ++
 meent/on_numpy/modeler/modeling.py | 2 ++
 meent/on_torch/modeler/modeling.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index 4854ea7..dcc736e 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -485,6 +485,8 @@ class ModelingJax:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        # the coordinates may be perturbed below: work on copies, the given lists belong to the caller
+        obj_list = [[list(top_left), list(bottom_right), pmty] for top_left, bottom_right, pmty in obj_list]
 
         # Griding
         row_list = []
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index 97cb2cc..e1f1fad 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -503,6 +503,8 @@ class ModelingNumpy:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        # the coordinates may be perturbed below: work on copies, the given lists belong to the caller
+        obj_list = [[list(top_left), list(bottom_right), pmty] for top_left, bottom_right, pmty in obj_list]
 
         # Griding
         row_list = []
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 3b348f9..4f5362b 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -405,6 +405,8 @@ class ModelingTorch:
             perturbation_unit = 1E-6
 
         pmtvy_base, obj_list = layer_info
+        # the coordinates may be perturbed below: work on copies, the given lists belong to the caller
+        obj_list = [[list(top_left), list(bottom_right), pmty] for top_left, bottom_right, pmty in obj_list]
 
         # Griding
         row_list = []
-- 
2.43.0


From e704915862a60f70dd9b1cb18634c688127295df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:22 +0000
Subject: [PATCH 15/26] fix: torch eig gradient used the perturbation of the
 solver that ran last

---
 meent/on_torch/emsolver/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/primitives.py b/meent/on_torch/emsolver/primitives.py
index 196920d..6f48c48 100644
--- a/meent/on_torch/emsolver/primitives.py
+++ b/meent/on_torch/emsolver/primitives.py
@@ -16,6 +16,7 @@ class Eig(torch.autograd.Function):
         matrix, = inputs
         eigval, eigvec = output
         ctx.save_for_backward(matrix, eigval, eigvec)
+        ctx.perturbation = Eig.perturbation
 
     @staticmethod
     def backward(ctx, grad_eigval, grad_eigvec):
@@ -36,7 +37,7 @@ class Eig(torch.autograd.Function):
         W_H = eig_vector.T.conj()
 
         Fij = eig_val.reshape((1, -1)) - eig_val.reshape((-1, 1))
-        Fij = Fij / (torch.abs(Fij) ** 2 + Eig.perturbation)
+        Fij = Fij / (torch.abs(Fij) ** 2 + ctx.perturbation)
         diag_indices = torch.arange(len(Fij), device=Fij.device)
         Fij[diag_indices, diag_indices] = 0
 
-- 
2.43.0


From ccfd80a868e3359e7685ef3992da83f756b35018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 16/26] fix: torch ellipse outline is computed in the solver's
 precision, not float32

---
 meent/on_torch/modeler/modeling.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 4f5362b..f761271 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -308,15 +308,15 @@ class ModelingTorch:
 
         angle = angle % (2 * torch.pi)
 
-        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w))
-        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h))
+        points_x_origin = lx/2 * torch.cos(torch.linspace(torch.pi/2, 0, n_split_w, dtype=self.type_float))
+        points_y_origin = ly/2 * torch.sin(torch.linspace(-torch.pi/2, torch.pi/2, n_split_h, dtype=self.type_float))
 
-        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w))[:-1]
-        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h))[:-1]
+        points_x_origin_contour = lx/2 * torch.cos(torch.linspace(-torch.pi, torch.pi, n_split_w, dtype=self.type_float))[:-1]
+        points_y_origin_contour = ly/2 * torch.sin(torch.linspace(-torch.pi, torch.pi, n_split_h, dtype=self.type_float))[:-1]
         points_origin_contour = torch.vstack([points_x_origin_contour, points_y_origin_contour])
 
-        axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin))])
-        axis_y_origin = torch.vstack([torch.ones(len(points_y_origin)), points_y_origin])
+        axis_x_origin = torch.vstack([points_x_origin, torch.ones(len(points_x_origin), dtype=self.type_float)])
+        axis_y_origin = torch.vstack([torch.ones(len(points_y_origin), dtype=self.type_float), points_y_origin])
 
         rotate = torch.ones((2, 2), dtype=points_x_origin.dtype)
         rotate[0, 0] = torch.cos(angle)
-- 
2.43.0


From 51b0215db47d7e4882ef18b5ff7b4fd2eb325cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:53 +0000
Subject: [PATCH 17/26] fix: torch rectangle keeps the precision and the
 gradient of a rotated rectangle's center

---
 meent/on_torch/modeler/modeling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index f761271..b5d553a 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -134,10 +134,12 @@ class ModelingTorch:
         DL = rotate @ torch.vstack([-lx / 2, -ly / 2])
         LU = rotate @ torch.vstack([-lx / 2, ly / 2])
 
-        UR += torch.tensor([[cx], [cy]])
-        RD += torch.tensor([[cx], [cy]])
-        DL += torch.tensor([[cx], [cy]])
-        LU += torch.tensor([[cx], [cy]])
+        # torch.tensor() would round the center to float32 and cut it off from autograd
+        center = torch.stack([torch.as_tensor(c, dtype=self.type_float).reshape(1) for c in (cx, cy)])
+        UR = UR + center
+        RD = RD + center
+        DL = DL + center
+        LU = LU + center
 
         if 0 <= angle < torch.pi / 2:
             angle_inside = (torch.pi / 2) - angle
-- 
2.43.0


From c39794979017c1a15e100138e05f0a0ffb3cd30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:28 +0000
Subject: [PATCH 18/26] fix: theta = 0 keeps its gradient when it is perturbed

---
 meent/on_jax/emsolver/_base.py   | 2 +-
 meent/on_torch/emsolver/_base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/meent/on_jax/emsolver/_base.py b/meent/on_jax/emsolver/_base.py
index 61c0c0d..396f2e4 100644
--- a/meent/on_jax/emsolver/_base.py
+++ b/meent/on_jax/emsolver/_base.py
@@ -119,7 +119,7 @@ class _BaseRCWA:
             self._theta = None
         else:
             self._theta = jnp.array(theta, dtype=self.type_complex)
-            self._theta = jnp.where(self._theta == 0, self.perturbation, self._theta)  # perturbation
+            self._theta = jnp.where(self._theta == 0, self._theta + self.perturbation, self._theta)  # perturbation
 
     @property
     def phi(self):
diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 85c8388..1802d74 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -134,7 +134,7 @@ class _BaseRCWA:
             self._theta = None
         else:
             self._theta = _to_tensor(theta, self.device, self.type_complex)
-            self._theta = torch.where(self._theta == 0, self.perturbation, self._theta)  # perturbation
+            self._theta = torch.where(self._theta == 0, self._theta + self.perturbation, self._theta)  # perturbation
 
     @property
     def phi(self):
-- 
2.43.0


From 082c6429ede5871360ed5b3002493ba1d23c34e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:28 +0000
Subject: [PATCH 19/26] fix: torch draws objects with a differentiable real
 index

---
 meent/on_torch/modeler/modeling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index b5d553a..4bfc5bf 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -539,6 +539,9 @@ class ModelingTorch:
             if is_aniso:
                 ucell_layer[row_begin:row_end, col_begin:col_end, :] = _to_index_vector(pmty, datatype)
             else:
+                # autograd cannot hand the complex gradient of this assignment back to a real tensor
+                if torch.is_tensor(pmty):
+                    pmty = pmty.type(datatype)
                 ucell_layer[row_begin:row_end, col_begin:col_end] = pmty
 
         x_list = torch.cat(col_list).reshape((-1, 1))
-- 
2.43.0


From 3515a24b097cff2e7d10828811a5152dd17241e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:28 +0000
Subject: [PATCH 20/26] fix: a differentiated cell is not merged, every pixel
 gets its gradient

---
 meent/on_jax/emsolver/convolution_matrix.py   | 8 ++++++--
 meent/on_torch/emsolver/convolution_matrix.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/meent/on_jax/emsolver/convolution_matrix.py b/meent/on_jax/emsolver/convolution_matrix.py
index e83bfb8..4f44032 100644
--- a/meent/on_jax/emsolver/convolution_matrix.py
+++ b/meent/on_jax/emsolver/convolution_matrix.py
@@ -19,6 +19,10 @@ def cell_compression(cell, type_complex=jnp.complex128):
     else:
         type_float = jnp.float32
 
+    # Equal neighbours are merged, except when the cell is differentiated: merging keeps one pixel of each group, and
+    # the others would get no gradient although each of them changes the result.
+    keep_all = isinstance(cell, jax.core.Tracer)
+
     # find discontinuities in x
     step_y, step_x = 1. / jnp.array(cell.shape, dtype=type_float)
     x = []
@@ -29,7 +33,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_next = jnp.roll(cell, -1, axis=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col])
 
@@ -37,7 +41,7 @@ def cell_compression(cell, type_complex=jnp.complex128):
     cell_x_next = jnp.roll(cell_x, -1, axis=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :])
 
diff --git a/meent/on_torch/emsolver/convolution_matrix.py b/meent/on_torch/emsolver/convolution_matrix.py
index cd3b391..50601b2 100644
--- a/meent/on_torch/emsolver/convolution_matrix.py
+++ b/meent/on_torch/emsolver/convolution_matrix.py
@@ -15,6 +15,10 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     else:
         type_float = torch.float32
 
+    # Equal neighbours are merged, except when the cell is differentiated: merging keeps one pixel of each group, and
+    # the others would get no gradient although each of them changes the result.
+    keep_all = cell.requires_grad
+
     # find discontinuities in x
     step_y, step_x = 1. / torch.tensor(cell.shape, device=device, dtype=type_float)
     x = []
@@ -25,7 +29,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_next = torch.roll(cell, -1, dims=1)
 
     for col in range(cell.shape[1]):
-        if not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
+        if keep_all or not (cell[:, col] == cell_next[:, col]).all() or (col == cell.shape[1] - 1):
             x.append(step_x * (col + 1))
             cell_x.append(cell[:, col].reshape((1, -1)))
 
@@ -33,7 +37,7 @@ def cell_compression(cell, device=torch.device('cpu'), type_complex=torch.comple
     cell_x_next = torch.roll(cell_x, -1, dims=0)
 
     for row in range(cell_x.shape[0]):
-        if not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
+        if keep_all or not (cell_x[row, :] == cell_x_next[row, :]).all() or (row == cell_x.shape[0] - 1):
             y.append(step_y * (row + 1))
             cell_xy.append(cell_x[row, :].reshape((1, -1)))
 
-- 
2.43.0


From ec5bf94f574f4b0b0a1b1e640547d0b0598c1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:00 +0000
Subject: [PATCH 21/26] fix: torch pol keeps the autograd graph of a tensor, as
 psi does

The pol setter built psi with torch.tensor(), which cuts a differentiable pol off:
its gradient stayed None.
---
 meent/on_torch/emsolver/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/_base.py b/meent/on_torch/emsolver/_base.py
index 1802d74..efe95b7 100644
--- a/meent/on_torch/emsolver/_base.py
+++ b/meent/on_torch/emsolver/_base.py
@@ -175,7 +175,7 @@ class _BaseRCWA:
             raise ValueError
 
         self._pol = pol
-        psi = torch.tensor(torch.pi / 2 * (1 - self.pol), device=self.device, dtype=self.type_complex)
+        psi = _to_tensor(torch.pi / 2 * (1 - self.pol), self.device, self.type_complex)
         self._psi = psi
 
     @property
-- 
2.43.0


From f8747a08d4a63f46012f13cd4c495a602ddd42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:00 +0000
Subject: [PATCH 22/26] fix: torch grad() starts from an empty gradient

backward() adds to the gradient of an earlier call, so the second grad() of an object
returned the sum of both.
---
 meent/on_torch/optimizer/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/optimizer/optimizer.py b/meent/on_torch/optimizer/optimizer.py
index 30084ce..31506fd 100644
--- a/meent/on_torch/optimizer/optimizer.py
+++ b/meent/on_torch/optimizer/optimizer.py
@@ -16,7 +16,9 @@ class OptimizerTorch(Grad):
         super().__init__()
 
     def grad(self, pois, forward, loss_fn):
-        [setattr(getattr(self, poi), 'requires_grad', True) for poi in pois]
+        for poi in pois:
+            getattr(self, poi).requires_grad = True
+            getattr(self, poi).grad = None  # backward() accumulates into an existing gradient
         result = forward()  # Forward Prop.
         loss = loss_fn(result)  # Loss
         loss.backward()  # Back Prop.
-- 
2.43.0


From e7d1b437707875f1816f42f8e95c9da5e8828115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 23/26] fix: torch conical solves of cells with one index per
 axis give wrong gradients at isotropic values

Equal values sent the cell to the conical solver, which holds for isotropic
cells only: the derivatives with respect to ny and nz were wrong.
---
 meent/on_torch/emsolver/rcwa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/emsolver/rcwa.py b/meent/on_torch/emsolver/rcwa.py
index 530e578..598b7b4 100644
--- a/meent/on_torch/emsolver/rcwa.py
+++ b/meent/on_torch/emsolver/rcwa.py
@@ -137,7 +137,9 @@ class RCWATorch(_BaseRCWA):
         if self.modeling_type_assigned == 0:
             if self.ucell.dim() == 4:  # (Layers, H, W, 3): anisotropic
                 nx, ny, nz = self.ucell[..., 0], self.ucell[..., 1], self.ucell[..., 2]
-                self.is_aniso = not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
+                # Equal values do not make equal gradients: the conical solver holds for isotropic cells only, so
+                # its derivatives with respect to the separate components are wrong even where they coincide.
+                self.is_aniso = self.ucell.requires_grad or not (torch.allclose(nx, ny) and torch.allclose(ny, nz))
             else:  # (Layers, H, W): isotropic
                 self.is_aniso = False
 
-- 
2.43.0


From 0d12eecc7bd39c2ecf38948955760d59c54711d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 24/26] fix: jax eigen-decomposition on the CPU can deadlock in
 the host callback

The solver passes its list of devices, which never equals 'cpu', so conical
solves always took pure_callback, which runs jax inside jax and can wait for
an execution slot forever.
---
 meent/on_jax/emsolver/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meent/on_jax/emsolver/primitives.py b/meent/on_jax/emsolver/primitives.py
index 22b3fe4..30b991c 100644
--- a/meent/on_jax/emsolver/primitives.py
+++ b/meent/on_jax/emsolver/primitives.py
@@ -18,7 +18,7 @@ def eig(x, type_complex=jnp.complex128, perturbation=1E-20, device='cpu'):
     eigenvectors_shape = jax.ShapeDtypeStruct(x.shape, type_complex)
 
     result_shape_dtype = (eigenvalues_shape, eigenvectors_shape)
-    if device == 'cpu':
+    if device in ('cpu', jax.devices('cpu')):
         res = _eig(x)
     else:
         res = jax.pure_callback(_eig, result_shape_dtype, x)
-- 
2.43.0


From abffbdc923f6ffb58d57ff9a4a54c212872648c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 25/26] fix: torch does not warn when a tensor wavelength lies
 outside a material table

---
 meent/on_torch/modeler/modeling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index 4bfc5bf..a0adbce 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -624,8 +624,10 @@ def warn_if_out_of_range(material, mat_data, wl):
     always means the wavelength was passed in nanometres or micrometres.
     """
     try:
+        if isinstance(wl, torch.Tensor):  # np.min refuses tensors
+            wl = wl.detach().cpu().numpy()
         wl_min, wl_max = float(np.min(wl)), float(np.max(wl))
-    except Exception:  # device-resident or traced values have no range to inspect here
+    except Exception:  # traced values have no range to inspect here
         return
 
     if isinstance(mat_data, dict):
-- 
2.43.0


From 8e39eaa5fdbdada1cdeef7f52a9688bf839eeac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 26/26] fix: .mat material tables with unsorted rows are
 interpolated wrongly

---
 meent/on_jax/modeler/modeling.py   | 1 +
 meent/on_numpy/modeler/modeling.py | 1 +
 meent/on_torch/modeler/modeling.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/meent/on_jax/modeler/modeling.py b/meent/on_jax/modeler/modeling.py
index dcc736e..50aa49f 100644
--- a/meent/on_jax/modeler/modeling.py
+++ b/meent/on_jax/modeler/modeling.py
@@ -767,5 +767,6 @@ def read_material_table(nk_path=None, type_complex=jnp.complex128):
             from scipy.io import loadmat
             data = loadmat(path)
             data = jnp.array([type_complex(data['WL']), type_complex(data['n']), type_complex(data['k'])])[:, :, 0].T
+            data = data[jnp.argsort(data[:, 0])]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = data
     return mat_table
diff --git a/meent/on_numpy/modeler/modeling.py b/meent/on_numpy/modeler/modeling.py
index e1f1fad..7a1036e 100644
--- a/meent/on_numpy/modeler/modeling.py
+++ b/meent/on_numpy/modeler/modeling.py
@@ -781,6 +781,7 @@ def read_material_table(nk_path=None, type_complex=np.complex128):
             from scipy.io import loadmat
             data = loadmat(path)
             data = np.array([data['WL'], data['n'], data['k']], dtype=type_complex)[:, :, 0].T
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = data
     return mat_table
 
diff --git a/meent/on_torch/modeler/modeling.py b/meent/on_torch/modeler/modeling.py
index a0adbce..f1394d5 100644
--- a/meent/on_torch/modeler/modeling.py
+++ b/meent/on_torch/modeler/modeling.py
@@ -714,5 +714,6 @@ def read_material_table(nk_path=None, type_complex=torch.complex128):
             from scipy.io import loadmat
             data = loadmat(path)
             data = np.array([data['WL'], data['n'], data['k']], dtype=type_complex)[:, :, 0].T
+            data = data[np.argsort(data[:, 0], kind='stable')]  # interp needs ascending wavelengths
             mat_table[name[:-4].upper()] = data
     return mat_table
-- 
2.43.0

