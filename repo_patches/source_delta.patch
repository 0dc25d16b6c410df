From 4026e85cc151ce8362fa7ba86fb8e5adb2aec61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 01/39] fix: regular polar derivative at the poles and for
 negative orders

scipy's lpmn gives NaN or infinite derivatives on the polar axis, the wrong
sign of odd degrees at the south pole (which made the PFSS evaluation raise
there), and negative orders were looked up with wrap-around indexing.
---
 starwinds_magnetogram/associated_legendre.py | 31 ++++++++------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index a702eba..583b578 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -4,27 +4,22 @@ import scipy.special
 
 def calculate_lpmn(degrees_l, orders_m, points_polar):
     r"""
-    Use scipy.lpmn to calculate the derivatives of the associated Legendre polynomial. The values returned
-    are $P(\cos\theta)$ and $\partial \theta P(\cos \theta)$.
+    Use scipy.lpmv to calculate the associated Legendre polynomial and its derivative. The values returned
+    are $P(\cos\theta)$ and $\partial \theta P(\cos \theta)$. The derivative is found from the recurrence
+    $\partial_\theta P_\ell^m = -\frac12 \left[(\ell+m)(\ell-m+1) P_\ell^{m-1} - P_\ell^{m+1}\right]$
+    which is regular at the poles and holds for negative orders.
     :param points_polar: point polar angle values
     :return: tuple of values and derivative values. The last index corresponds to the order and degree.
     """
-    max_degree = np.max(degrees_l)
-    max_order = np.max(orders_m)
-    Pmn_cos_theta_result = np.empty(points_polar.shape + (max_order + 1, max_degree + 1))
-    Pmn_d_cos_theta_result = np.empty_like(Pmn_cos_theta_result)
+    degrees_l = np.asarray(degrees_l)
+    orders_m = np.asarray(orders_m)
+    cos_polar = np.cos(points_polar)[..., np.newaxis]
 
-    for ndindex in np.ndindex(points_polar.shape):
-        a, b = scipy.special.lpmn(m=max_order,
-                                  n=max_degree,
-                                  z=np.cos(points_polar[ndindex]))
-        Pmn_cos_theta_result[ndindex] = a
+    Pmn_cos_theta_result = scipy.special.lpmv(orders_m, degrees_l, cos_polar)
 
-        # Some values of b can be infinite
-        with np.errstate(invalid='ignore'):
-            Pmn_d_cos_theta_result[ndindex] = b * -np.sin(points_polar[ndindex])
+    # The lower order term has a zero factor when m=-l.
+    lower = np.where(orders_m > -degrees_l, scipy.special.lpmv(orders_m - 1, degrees_l, cos_polar), 0)
+    upper = scipy.special.lpmv(orders_m + 1, degrees_l, cos_polar)
+    Pmn_d_cos_theta_result = -.5 * ((degrees_l + orders_m) * (degrees_l - orders_m + 1) * lower - upper)
 
-    Pmn_cos_theta_result = Pmn_cos_theta_result[..., orders_m, degrees_l]
-    Pmn_d_cos_theta_result = Pmn_d_cos_theta_result[..., orders_m, degrees_l]
-
-    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
\ No newline at end of file
+    return Pmn_cos_theta_result, Pmn_d_cos_theta_result
-- 
2.43.0


From 95b523651757cc1d45e71a99ae66c1086317009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:50 +0000
Subject: [PATCH 02/39] fix: finite field components on the polar axis

The m P / sin(theta) terms are regular at the poles; the ZDI field was NaN there
and the azimuthal PFSS component was zero regardless of its limit.
---
 starwinds_magnetogram/associated_legendre.py | 14 ++++++++++++++
 starwinds_magnetogram/pfss_magnetogram.py    | 20 ++++++++++++++++----
 starwinds_magnetogram/zdi_magnetogram.py     | 14 ++++++--------
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/starwinds_magnetogram/associated_legendre.py b/starwinds_magnetogram/associated_legendre.py
index 583b578..1804952 100644
--- a/starwinds_magnetogram/associated_legendre.py
+++ b/starwinds_magnetogram/associated_legendre.py
@@ -23,3 +23,17 @@ def calculate_lpmn(degrees_l, orders_m, points_polar):
     Pmn_d_cos_theta_result = -.5 * ((degrees_l + orders_m) * (degrees_l - orders_m + 1) * lower - upper)
 
     return Pmn_cos_theta_result, Pmn_d_cos_theta_result
+
+
+def calculate_lpmv_over_sin(degree_l, order_m, points_polar):
+    r"""
+    Calculate $m P_\ell^m(\cos\theta) / \sin\theta$, which is regular at the poles.
+    :param points_polar: point polar angle values
+    :return: values of $m P_\ell^m(\cos\theta) / \sin\theta$
+    """
+    if order_m == 0:
+        return np.zeros_like(points_polar, dtype=float)
+    cos_polar = np.cos(points_polar)
+    return -.5 * (scipy.special.lpmv(order_m + 1, degree_l + 1, cos_polar)
+                  + (degree_l - order_m + 1) * (degree_l - order_m + 2)
+                  * scipy.special.lpmv(order_m - 1, degree_l + 1, cos_polar))
diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 3ff5e0a..878a934 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -2,6 +2,7 @@ import logging
 log = logging.getLogger(__name__)
 import numpy as np
 import scipy as sp
+from starwinds_magnetogram import associated_legendre
 from starwinds_magnetogram import coordinate_transforms
 
 
@@ -56,6 +57,19 @@ def theta_lm(deg_l, ord_m, points_polar):
     return value, deriv
 
 
+def theta_lm_over_sin(deg_l, ord_m, points_polar):
+    r"""
+    Calculate $\Theta_{\ell m}(\theta) / \sin\theta$ which is finite at the poles when $m > 0$; zero when $m=0$.
+    :param deg_l: Degree $\ell$ of coefficient
+    :param ord_m: Order $m$ of coefficient
+    :param points_polar: 2d array of polar coordinate values
+    :return: 2d array of values
+    """
+    clm = (-1) ** ord_m * np.sqrt(2 * sp.special.factorial(deg_l - ord_m)
+                                  / sp.special.factorial(deg_l + ord_m))
+    return clm * associated_legendre.calculate_lpmv_over_sin(deg_l, ord_m, points_polar) / max(ord_m, 1)
+
+
 def calculate_all_theta(degree_l, order_m, points_polar, scipy=True):
     
     degree_l = np.asarray(degree_l)
@@ -214,13 +228,11 @@ def evaluate_spherical(
 
         unscaled_radial    = _r_l[1] * buffered_theta[..., coeff_id]  * _phi_lm[0]
         unscaled_polar     = _r_l[0] * buffered_dtheta[..., coeff_id] * _phi_lm[0]
-        unscaled_azimuthal = _r_l[0] * buffered_theta[..., coeff_id]  * _phi_lm[1]
+        unscaled_azimuthal = _r_l[0] * theta_lm_over_sin(deg_l, ord_m, points_polar) * _phi_lm[1]
 
         field_radial    -= unscaled_radial
         field_polar     -= unscaled_polar / points_radial
-        field_azimuthal -= np.divide(unscaled_azimuthal, points_radial * np.sin(points_polar),
-                                     out=np.zeros_like(field_azimuthal),
-                                     where=unscaled_azimuthal != 0)
+        field_azimuthal -= unscaled_azimuthal / points_radial
 
     # Set field inside star to zero
     field_radial[_invalid_inner_ids] = 0.0
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 18b37cd..518add9 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -137,13 +137,12 @@ class ZdiMagnetogram:
         field_azimuthal_poloidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, b_lm, c_lm in zip(self.degrees_l, self.orders_m, self.beta, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            mp_lm_over_sin = associated_legendre.calculate_lpmv_over_sin(deg_l, ord_m, points_polar)
             field_azimuthal_poloidal -= (b_lm
                                      * c_lm
-                                     * p_lm
-                                     * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
+                                     * mp_lm_over_sin
+                                     * 1.0j * np.exp(1.0j * ord_m * points_azimuth)
                                      / (deg_l + 1)
-                                     / np.sin(points_polar)
                                      )
 
         return np.real(field_azimuthal_poloidal)
@@ -255,13 +254,12 @@ class ZdiMagnetogram:
         field_polar_toroidal = np.zeros_like(points_azimuth, dtype=complex)
 
         for deg_l, ord_m, g_lm, c_lm in zip(self.degrees_l, self.orders_m, self.gamma, self.c_lm):
-            p_lm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
+            mp_lm_over_sin = associated_legendre.calculate_lpmv_over_sin(deg_l, ord_m, points_polar)
             field_polar_toroidal += (g_lm
                                          * c_lm
-                                         * p_lm
-                                         * 1.0j * ord_m * np.exp(1.0j * ord_m * points_azimuth)
+                                         * mp_lm_over_sin
+                                         * 1.0j * np.exp(1.0j * ord_m * points_azimuth)
                                          / (deg_l + 1)
-                                         / np.sin(points_polar)
                                          )
 
         return np.real(field_polar_toroidal)
-- 
2.43.0


From 342ba02df77363f758b524afd2f054d2e459789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 03/39] fix: write the number of data lines in the SWMF header

The header always stated 1 data line.
---
 starwinds_magnetogram/reader_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/reader_writer.py b/starwinds_magnetogram/reader_writer.py
index 6a4d09b..07c193e 100644
--- a/starwinds_magnetogram/reader_writer.py
+++ b/starwinds_magnetogram/reader_writer.py
@@ -112,7 +112,7 @@ def write_magnetogram_file(coefficient_sets, file_name, degree_max=None, order_m
 
 
     if write_swmf_header:
-        header_lines = create_swmf_header(file_name, len(coefficient_data_lines[0]), degree_max,
+        header_lines = create_swmf_header(file_name, len(coefficient_data_lines), degree_max,
                                     carrington_rotation_number=0, dlon=0.0)
     else:
         header_lines = ["Output of %s" % __file__, "Order:%d" % degree_max]
-- 
2.43.0


From f19994b28c2ce7fcff6c54576db8f5d5bf2a1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 04/39] fix: do not modify the caller's radii in the Parker
 solution

---
 starwinds_magnetogram/parker_solution.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 0051dd6..3e8eb85 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -99,8 +99,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds_dimensionless = self.find_parker_analytic(radii / self.radius_sonic)
         speeds = speeds_dimensionless * self.speed_sonic
@@ -112,8 +111,7 @@ class ParkerSolution(AnalyticBase):
         :param radii:
         :return:
         """
-        radii = np.atleast_1d(radii)
-        radii[np.where(radii <= self.stellar_radius)] = self.stellar_radius
+        radii = np.maximum(np.atleast_1d(radii), self.stellar_radius)
 
         speeds = self.speed(radii)
         densities = self.base_density * \
-- 
2.43.0


From afaf0b9bec5b9ef394dd06980f92c1c55b079328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 05/39] fix: use the current component methods for the
 cartesian poloidal and toroidal fields

The cartesian toroidal field always raised, and the cartesian poloidal field
had the polar component reversed.
---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 518add9..99505e3 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -558,7 +558,7 @@ class ZdiMagnetogram:
         """
         # Field components in spherical coordinates
         frpa = [self.get_radial_poloidal_field(points_polar, points_azimuth),
-                self.get_polar_poloidal_field(points_polar, points_azimuth),
+                self.get_polar_poloidal_field_new(points_polar, points_azimuth),
                 self.get_azimuthal_poloidal_field(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
@@ -570,7 +570,7 @@ class ZdiMagnetogram:
         # Field components in spherical coordinates
         frpa = [self.get_radial_toroidal_field(points_polar, points_azimuth),
                 self.get_polar_toroidal_field(points_polar, points_azimuth),
-                self.get_azimuthal_toroidal_field(points_polar, points_azimuth)]
+                self.get_azimuthal_toroidal_field_new(points_polar, points_azimuth)]
 
         return _cartesian_from_spherical_helper(*frpa, points_polar, points_azimuth)
 
-- 
2.43.0


From 05729a0a44e6c897f849b6070aee063ce5df34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 06/39] fix: allow the energy of a magnetogram without an axial
 dipole coefficient

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 99505e3..c2e59fd 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -447,10 +447,8 @@ class ZdiMagnetogram:
             dict_['magnetogram.total.energy.toroidal.axisymmetric.fraction'] = toroidal_axisym / total_energy_toroidal
 
             
-            symdipfrac_numerator = (energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)]
+            symdipfrac_numerator = np.sum((energy_alpha + energy_beta)[np.logical_and(self.degrees_l == 1, self.orders_m == 0)])
             symdipfrac_denominator = np.sum((energy_alpha + energy_beta)[self.degrees_l == 1])
-            assert len(symdipfrac_numerator) == 1
-            symdipfrac_numerator = symdipfrac_numerator[0]
             symdipfrac = symdipfrac_numerator / symdipfrac_denominator 
 
             dict_['magnetogram.total.energy.dipole.axisymmetric.fraction'] = symdipfrac
-- 
2.43.0


From 4af5e422015f5f20d747a55ac694d6b5029959dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 07/39] fix: do not truncate the longitudinal field for integer
 observer azimuths

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 569a3e9..0a72668 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -21,7 +21,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     if observer_azimuths is None:
         observer_azimuths = np.deg2rad(np.linspace(0, 360, zdi_geometry.shape[0]))
 
-    longitudinal_fields = np.empty_like(observer_azimuths)
+    longitudinal_fields = np.empty_like(observer_azimuths, dtype=float)
 
     areas = zdi_geometry.areas()
 
-- 
2.43.0


From e9b1ec4096a48176166e1e5dbd4f82d4b40bc61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 08/39] fix: plot a single LSD parameter or a single LSD
 profile

---
 starwinds_magnetogram/bin/plot_lsd.py | 4 ++--
 starwinds_magnetogram/plot_lsd.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_lsd.py b/starwinds_magnetogram/bin/plot_lsd.py
index 172e915..df63617 100644
--- a/starwinds_magnetogram/bin/plot_lsd.py
+++ b/starwinds_magnetogram/bin/plot_lsd.py
@@ -27,9 +27,9 @@ def main():
     base_data = np.genfromtxt(args.input_file, skip_header=args.skip_rows)
 
     parameters = args.params
-    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True)
+    _, axs = plt.subplots(len(parameters), figsize=(8, 6), sharex=True, squeeze=False)
     plot_lsd.plot_lsd_profile(base_data, parameters=parameters)
-    axs[0].set_title('Data in %s' % args.input_file)
+    axs[0, 0].set_title('Data in %s' % args.input_file)
 
     if args.output_file is None:
         plt.show()
diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index d27ac0b..8c101b6 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -110,7 +110,8 @@ def plot_lsd_stack(data_stack, name_stack, y_lim=None):
     axs = fig.axes
     if len(fig.axes) != len(data_stack):
         log.debug('Create new plot with %d subplots' % len(data_stack))
-        fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True)
+        fig, axs = plt.subplots(len(data_stack), figsize=(12, len(data_stack)), sharex=True, squeeze=False)
+        axs = axs[:, 0]
     else:
         log.debug('Reuse existing plot (with 3 subplots).')
 
-- 
2.43.0


From 30ec84c11383f337afdf37d17ed6c56fdef25619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 09/39] fix: wavelength intervals cover every sample once

Each interval started with the last sample of the previous one, and the last
sample was not part of any interval.
---
 starwinds_magnetogram/plot_lsd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_lsd.py b/starwinds_magnetogram/plot_lsd.py
index 8c101b6..185e8aa 100644
--- a/starwinds_magnetogram/plot_lsd.py
+++ b/starwinds_magnetogram/plot_lsd.py
@@ -39,10 +39,10 @@ def wl_intervals(wavelengths, threshold=0.2):
     abs_diffs = np.abs(np.diff(wavelengths))
     skips = np.where(abs_diffs > threshold)[0]
     print(skips)
-    interval_starts = np.concatenate(([0],skips))
+    interval_starts = np.concatenate(([0], skips + 1))
     interval_ends = np.concatenate(
         (skips + 1,
-         np.array([len(wavelengths)-1])))
+         np.array([len(wavelengths)])))
     return zip(interval_starts, interval_ends)
 
 
-- 
2.43.0


From 4fd9fbaeec5820c10ac96d3ef34067c71f863baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 10/39] fix: label the polar field B_theta and the azimuthal
 field B_phi

---
 starwinds_magnetogram/bin/plot_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/bin/plot_magnetogram.py b/starwinds_magnetogram/bin/plot_magnetogram.py
index 955d3e8..9682ef2 100644
--- a/starwinds_magnetogram/bin/plot_magnetogram.py
+++ b/starwinds_magnetogram/bin/plot_magnetogram.py
@@ -43,8 +43,8 @@ def main():
     _star_name = guess_star_name_from_filename(args.input_file)
 
     _getters = {'radial': (lz.get_radial_field, 'B_r'),
-                'polar': (lz.get_polar_field, r'B_\phi'),
-                'azimuthal': (lz.get_azimuthal_field, r'B_\theta'),
+                'polar': (lz.get_polar_field, r'B_\theta'),
+                'azimuthal': (lz.get_azimuthal_field, r'B_\phi'),
                 'strength': (lz.get_field_strength, '|B|')}
     _getters['azimuth'] = _getters['azimuthal']
 
-- 
2.43.0


From 199996c314e38b6e4cfb0f8423ba8761afdbed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 11/39] fix: refuse to overwrite the input file when it is
 spelled differently

---
 starwinds_magnetogram/bin/convert_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/bin/convert_magnetogram.py b/starwinds_magnetogram/bin/convert_magnetogram.py
index 4b563fd..c07cd47 100644
--- a/starwinds_magnetogram/bin/convert_magnetogram.py
+++ b/starwinds_magnetogram/bin/convert_magnetogram.py
@@ -104,7 +104,7 @@ def _make_output_filename(input_file, output_name, postfix):
         if os.path.exists(output_name):
             raise ValueError(f"Output file {output_name} already exists. Please specify a different output file name.")
 
-    if input_file == output_name:
+    if os.path.realpath(input_file) == os.path.realpath(output_name):
         raise ValueError("Input and output file names are the same. Please provide a (different) output file name.")
 
     return output_name
-- 
2.43.0


From 442d17ef0c94a30387cb8be45a73a1a0b6b037e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 12/39] fix: Parker speed at and near the sonic point

The Lambert W function was evaluated at its branch point, which gave a complex
NaN at the sonic radius (and made other radii in the same array complex) and a
speed that did not increase just outside it.
---
 starwinds_magnetogram/parker_solution.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/starwinds_magnetogram/parker_solution.py b/starwinds_magnetogram/parker_solution.py
index 3e8eb85..6f8f255 100644
--- a/starwinds_magnetogram/parker_solution.py
+++ b/starwinds_magnetogram/parker_solution.py
@@ -45,13 +45,18 @@ class AnalyticBase:
             else:
                 return branches[1]
 
+        def _speed(branch):
+            if _parker_rhs < 1e-6:
+                # Series about the branch point of the Lambert W function, which is reached at the sonic point.
+                # Here rounding makes lambertw inaccurate or not a number.
+                p = np.sqrt(-2 * np.expm1(-max(_parker_rhs, 0))) * (1 if branch == 0 else -1)
+                return np.sqrt(1 - p + p**2 / 3 - 11 / 72 * p**3)
+            return np.sqrt(-np.real(lambertw(-np.exp(-_parker_rhs - 1), branch)))
+
         if not all_sols:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), _branch(radius_dimensionless)))
-            return np.real_if_close(w)
+            return _speed(_branch(radius_dimensionless))
         else:
-            w = np.sqrt(-lambertw(-np.exp(-_parker_rhs - 1), branches))
-            w = np.real_if_close(w)
-            return w[0], w[1]
+            return _speed(branches[0]), _speed(branches[1])
 
 
 class ParkerSolution(AnalyticBase):
-- 
2.43.0


From 77a5f3f4e6c3a197e89fe58097d0a06249fbbd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 13/39] fix: draw PFSS slices normal to the y and z axes, and
 label the axes of the slice

The field lines were always drawn in the y-z plane, which raised for the other
slices, and the axes were always labelled x and z.
---
 starwinds_magnetogram/plot_pfss.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 4e9b187..6a03896 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -78,15 +78,18 @@ def plot_slice(coefficients, normal="x", rmax=5,
     fig.colorbar(im).set_label('Radial field strength')
 
     ax.set_aspect('equal')
-    ax.set_xlabel(r'Distance $x/r_{\star}$')
-    ax.set_ylabel(r'Distance $z/r_{\star}$')
+    # The two coordinates that span the plane and the field components along them.
+    (label_1, field_1), (label_2, field_2) = [(_name, _field) for _name, _field in
+                                              zip("xyz", (fx, fy, fz)) if _name != normal]
+    ax.set_xlabel(r'Distance $%s/r_{\star}$' % label_1)
+    ax.set_ylabel(r'Distance $%s/r_{\star}$' % label_2)
 
     # Add star and source surface.
     radial_distance = np.squeeze((px**2 + py**2 + pz**2)**.5)
     ax.contour(p1[:, :], p2[:, :], radial_distance, levels=[radius_star, radius_source_surface], colors='k')
 
     # Add field lines:
-    ax.streamplot(py[..., 0], pz[..., 0], fy[..., 0], fz[..., 0], color='k')
+    ax.streamplot(p1, p2, field_1[..., 0], field_2[..., 0], color='k')
 
     return fig, ax
 
-- 
2.43.0


From 3700f7a99f9c8fb898668efff209335f06e22d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 14/39] fix: do not share the mutable default coefficients with
 the caller

---
 starwinds_magnetogram/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index d282542..272ecbe 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -13,7 +13,7 @@ class Coefficients(object):
     def __init__(self, default_coefficients=0j):
         """Create an empty set of coefficients"""
         self.coefficients = {}
-        self._default_coefficients = np.atleast_1d(default_coefficients)
+        self._default_coefficients = np.array(default_coefficients, ndmin=1)  # This makes a copy.
         self._degree_max = 0
         self._order_min = 0
 
@@ -53,7 +53,7 @@ class Coefficients(object):
         assert type(degree) == int, "Degree index must be integer"
         assert type(order) == int, "Order index must be integer"
 
-        return self.coefficients.get((degree, order), self._default_coefficients)
+        return self.coefficients.get((degree, order), self.default_coefficients)
 
     @property
     def degree_max(self):
-- 
2.43.0


From 98c7350ac9cbf652e6be366ed0abe96fe1850b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 15/39] fix: compare sets of coefficients that are empty, and
 set the default of isclose

Comparing two empty sets raised, and the default of the result of isclose was
uninitialised memory.
---
 starwinds_magnetogram/coefficients.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 272ecbe..975bd7d 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -220,24 +220,17 @@ def allclose(shc0,
         return False
 
     bool_coeffs = isclose(shc0, shc1, **kwargs)
-    bool_values = np.stack([v for k, v in bool_coeffs.contents()])
-
-    return np.all(bool_values)
+    return all(np.all(v) for k, v in bool_coeffs.contents())
 
 
 def isclose(shc0, shc1, **kwargs):
 
     keys = set.union(*[set(a.coefficients) for a in (shc0, shc1)])
 
-    c0 = np.vstack([shc0.get(degree, order) for degree, order in keys])
-    c1 = np.vstack([shc1.get(degree, order) for degree, order in keys])
-
-    bools = np.isclose(c0, c1, **kwargs)
-
     # Use a boolean array as the default coefficient
-    coeffs = Coefficients(default_coefficients=np.empty_like(shc0.default_coefficients, dtype=bool))
-    for (degree, order), bool_ in zip(keys, bools):
-        coeffs.append(degree, order, bool_)
+    coeffs = Coefficients(default_coefficients=np.isclose(shc0.default_coefficients, shc1.default_coefficients, **kwargs))
+    for degree, order in keys:
+        coeffs.append(degree, order, np.isclose(shc0.get(degree, order), shc1.get(degree, order), **kwargs))
     return coeffs
 
 
-- 
2.43.0


From 707f09ba4dbe387455b9797da5c570b006872867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 16/39] fix: do not share cached spherical harmonics with the
 caller

---
 starwinds_magnetogram/image_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index bf39932..7c688fd 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -94,7 +94,7 @@ def spherical_harmonic(ord_m, deg_l, azimuth, polar, use_cache=True):
 
         ylm = _cached_spherical_harmonic(ord_m, deg_l, azimuth_tuple, polar_tuple)
 
-        return ylm
+        return ylm.copy()  # A copy is needed as the cached array is mutable.
     else:
         return sph_harm(ord_m, deg_l, azimuth, polar)
 
-- 
2.43.0


From 637329076aaaf3daa552f21ca3658e2a62529d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 17/39] fix: energies are real for complex axisymmetric
 coefficients

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index c2e59fd..8e02d46 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -507,7 +507,7 @@ class ZdiMagnetogram:
         if require_l_term:
             result *= self.degrees_l / (self.degrees_l + 1)
 
-        return np.real_if_close(result)
+        return np.real(result)  # The imaginary part is zero up to rounding errors.
 
     def _dplm(self, p_lm, points_polar):
         """
-- 
2.43.0


From bd3defb751ccbb322e491d1c43ff37ad5bba246f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 18/39] fix: place symlog color bar ticks on the scale of the
 color bar

---
 .../colorbar_manual_tickmarks.py                | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 2f0cbf7..81edfb9 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -48,16 +48,21 @@ def fully_manual_tickmarks(axis, norm, major_values, major_labels, minor_values)
     :param minor_values:
     :return:
     """
-    ax = axis.axes
-    xlim = ax.get_xlim()
-    xmin = xlim[0]
-    xrange = xlim[1] - xlim[0]
+    # The norm gives the position along the color bar as a fraction from 0 to 1. The axis of the color bar has limits
+    # and a scale (transform) of its own, so this has to be turned into a value on that axis.
+    xlim = axis.get_view_interval()
+    transform = axis.get_transform()
+    xmin, xmax = transform.transform(xlim)
+    xrange = xmax - xmin
 
-    xticks_major = xrange * norm(major_values) + xmin
+    def _ticks(values):
+        return transform.inverted().transform(np.ma.getdata(xrange * norm(values) + xmin))
+
+    xticks_major = _ticks(major_values)
     axis.set_ticks(xticks_major)
     axis.set_ticklabels(major_labels)
 
-    xticks_minor = xrange * norm(minor_values) + xmin
+    xticks_minor = _ticks(minor_values)
 
     xticks_minor = xticks_minor[xticks_minor >= xlim[0]]
     xticks_minor = xticks_minor[xticks_minor <= xlim[1]]
-- 
2.43.0


From bff01fac140f01beccb9d2b581bffc3c9cb50a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 19/39] fix: restricting the degree does not drop negative
 orders

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 8e02d46..40a6eab 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -307,7 +307,7 @@ class ZdiMagnetogram:
     def as_dipole(self):
         return self.as_restricted(degree_l_range=1)
 
-    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(0, 1000)):
+    def as_restricted(self, degree_l_range=(0, 1000), order_m_range=(-1000, 1000)):
 
         degree_l_range = tuple(np.atleast_1d(degree_l_range))
         order_m_range = tuple(np.atleast_1d(order_m_range))
-- 
2.43.0


From 5c7b31119e2c7ab91abb4bf2265ed584f1fe5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:13 +0000
Subject: [PATCH 20/39] fix: draw the energy summary in proportion to the full
 circle, also for zero fractions

---
 starwinds_magnetogram/plot_zdi.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index 4218e53..b6ee8cf 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -10,6 +10,18 @@ import starwinds_magnetogram.geometry
 import starwinds_magnetogram.plots
 
 
+def _pie(ax, fractions, **kwargs):
+    """
+    Draw fractions as wedges of a full circle, also when they add up to less than one or to zero.
+    Fractions that are not defined are drawn as zero.
+    """
+    fractions = np.nan_to_num(fractions)
+    artists = ax.pie([*fractions, max(0, 1 - np.sum(fractions))], **kwargs)
+    for artist_list in artists:
+        artist_list[-1].set_visible(False)  # The last wedge is the rest of the circle.
+    return tuple(artist_list[:-1] for artist_list in artists)
+
+
 def plot_energy_summary(zc, axs=None):
 
     if axs is None:
@@ -22,7 +34,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[0]
     ax.set_title("Total energy")
 
-    w, *_ = ax.pie([results['magnetogram.poloidal.energy.fraction'],
+    w, *_ = _pie(ax, [results['magnetogram.poloidal.energy.fraction'],
                     results['magnetogram.toroidal.energy.fraction'],],
                        radius=2,
                        autopct='%1.0f%%',
@@ -35,7 +47,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["poloidal", "toroidal"]
 
-    w, *_ = ax.pie([results['magnetogram.radial.energy.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.radial.energy.fraction'],],
                    radius=2,
                    autopct='%1.0f%%',
                    pctdistance=1,
@@ -48,7 +60,7 @@ def plot_energy_summary(zc, axs=None):
     wedges.extend(w)
     wlabels.append("radial")
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.axisymmetric.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.total.energy.axisymmetric.fraction'],],
                    radius=1,
                    # labels=("axisymmetric",),
                    autopct='%1.0f%%',
@@ -65,7 +77,7 @@ def plot_energy_summary(zc, axs=None):
     ax = axs[1]
     ax.set_title("Poloidal energy")
     labels = ("dipole", "quadrupole", "octopole")
-    w, *_ = ax.pie([results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
+    w, *_ = _pie(ax, [results[f'magnetogram.total.energy.{c}.fraction'] for c in labels],
            # labels=labels,
            radius=2,
            autopct='%1.1f%%',
@@ -78,7 +90,7 @@ def plot_energy_summary(zc, axs=None):
     wedges = list(w)
     wlabels = ["dipole", "quadrupole", "octopole"]
 
-    w, *_ = ax.pie([results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
+    w, *_ = _pie(ax, [results['magnetogram.total.energy.poloidal.axisymmetric.fraction'],],
            radius=1,
            # labels=("axisymmetric",),
            autopct='%1.0f%%',
@@ -96,7 +108,7 @@ def plot_energy_summary(zc, axs=None):
         ax = axs[2]
         ax.set_title("Toroidal energy")
         labels = ("l1", "l2", "l3")
-        w, *_ = ax.pie([results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
+        w, *_ = _pie(ax, [results[f'magnetogram.total.energy.toroidal.{c}.fraction'] for c in labels],
                # labels=labels,
                radius=2,
                autopct='%1.1f%%',
@@ -109,7 +121,7 @@ def plot_energy_summary(zc, axs=None):
         wedges = list(w)
         wlabels = ["$l1$", "$l2$", "$l3$"]
 
-        w, *_ = ax.pie([results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
+        w, *_ = _pie(ax, [results['magnetogram.total.energy.toroidal.axisymmetric.fraction'],],
                radius=1,
                # labels=("axisymmetric",),
                autopct='%1.0f%%',
-- 
2.43.0


From f15264286cd1e82e00407307ea15667434dccc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 21/39] fix: label the orders of the energy matrix where its
 ticks are drawn

---
 starwinds_magnetogram/plot_zdi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index b6ee8cf..c6f9d0a 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -3,7 +3,7 @@ log = logging.getLogger(__name__)
 
 import numpy as np
 from matplotlib import pyplot as plt, colors
-from matplotlib.ticker import IndexLocator
+from matplotlib.ticker import FuncFormatter, IndexLocator
 from mpl_toolkits.axes_grid1 import make_axes_locatable
 
 import starwinds_magnetogram.geometry
@@ -196,7 +196,7 @@ def _plot_energy(zc, name="total", negative_orders=False, ax=None):
 
     if energy.shape[0] != energy.shape[1]:
         # This means that negative orders are included.
-        ax.set_xticklabels(np.array(ax.get_xticks() - energy.shape[1]//2, dtype=int))
+        ax.xaxis.set_major_formatter(FuncFormatter(lambda x, _: "%g" % (x - energy.shape[1]//2)))
     ax.grid(which='minor', axis='both')
 
     divider = make_axes_locatable(ax)
-- 
2.43.0


From 1a7d537526249cb80dacd66853a2ae02c49ee15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:47 +0000
Subject: [PATCH 22/39] fix: recover ZDI coefficients from grids with
 decreasing angles

---
 starwinds_magnetogram/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index 319dc01..d969de7 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -183,7 +183,7 @@ def get_zdi_coeffs(pl, az, degrees_l, orders_m, field_r, field_pl, field_az, are
         # More like pseudo-area
         dpl = np.mean(np.diff(pl, axis=1))
         daz = np.mean(np.diff(az, axis=0))
-        area = dpl * daz
+        area = np.abs(dpl * daz)  # The angles may be in decreasing order.
 
     plmct, dplmct = associated_legendre.calculate_lpmn(degrees_l, orders_m, pl)  # Uses n for degree
     c_lm = zdi_magnetogram.get_c_lm(degrees_l, orders_m)
-- 
2.43.0


From 1905abe855e820ce3034a95f981b7d510fdc2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 23/39] fix: positive facet areas for decreasing corners

---
 starwinds_magnetogram/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index e51ae57..d8fbaa2 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -63,7 +63,8 @@ class ZdiGeometry:
         height_delta = (np.cos(self.polar_corners[:-1, :-1]) - np.cos(self.polar_corners[:-1, 1:]))
         azimuth_delta = (self.azimuthal_corners[1:, 1:] - self.azimuthal_corners[:-1, 1:])
 
-        return height_delta * azimuth_delta
+        # The corners may run either way.
+        return np.abs(height_delta * azimuth_delta)
 
     # def visible_areas(self, projection_direction):
     #     """Calculate projected (visible) area in the direction of projection_direction.
-- 
2.43.0


From 249639ccbeafd2ffd10fc1fcc4ce914101838246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 24/39] fix: positive integration intervals for decreasing
 corners

---
 starwinds_magnetogram/image_converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/image_converter.py b/starwinds_magnetogram/image_converter.py
index 7c688fd..3724135 100644
--- a/starwinds_magnetogram/image_converter.py
+++ b/starwinds_magnetogram/image_converter.py
@@ -107,8 +107,8 @@ def _deltas(zg):
     :return: delta polar, delta azimuth
     """
     polar_corners, azimuth_corners = zg.corners()
-    delta_polar = np.diff(polar_corners, axis=1)
-    delta_azimuth = np.diff(azimuth_corners, axis=0)
+    delta_polar = np.abs(np.diff(polar_corners, axis=1))
+    delta_azimuth = np.abs(np.diff(azimuth_corners, axis=0))
 
     assert np.allclose(delta_polar, delta_polar[0, :])
     assert np.allclose(delta_azimuth, delta_azimuth[:, 0][:, np.newaxis])
-- 
2.43.0


From 73c5fd43721d1797754aef2ec50c336182dda2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 25/39] fix: shift the exponent of tick labels that Matplotlib
 makes

Labels such as $\mathdefault{10^{-4}}$ raised an error, and labels without an
exponent such as $\mathdefault{0}$ were changed.
---
 starwinds_magnetogram/colorbar_manual_tickmarks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/colorbar_manual_tickmarks.py b/starwinds_magnetogram/colorbar_manual_tickmarks.py
index 81edfb9..eb67557 100644
--- a/starwinds_magnetogram/colorbar_manual_tickmarks.py
+++ b/starwinds_magnetogram/colorbar_manual_tickmarks.py
@@ -110,9 +110,10 @@ def tesla_to_gauss(tickmark_string, exponent_shift=4):
     :param exponent_shift: Exponent shift (4 converts Tesla to Gauss)
     :return:
     """
-    position_0 = tickmark_string.find("{") + 1
-    position_1 = tickmark_string.find("}")
-    if position_1 < position_0:
+    # Labels made by Matplotlib have other braces as well, as in $\mathdefault{10^{-4}}$.
+    position_0 = tickmark_string.find("^{") + 2
+    position_1 = tickmark_string.find("}", position_0)
+    if position_0 < 2 or position_1 < 0:
         return tickmark_string
 
     string_left = tickmark_string[:position_0]
-- 
2.43.0


From 2d1f6d0d66392a1a919bcaf16ba9903eb7d175e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 26/39] fix: keep values that the default's type cannot hold

Sets made from real or integer arrays lost the imaginary or fractional part of
values set, multiplied or added later, so that a + b differed from b + a.
---
 starwinds_magnetogram/coefficients.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 975bd7d..fd899ce 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -31,7 +31,8 @@ class Coefficients(object):
     def set(self, degree, order, data):
         """Set (overwrite) coefficients for a given degree and order."""
         data = np.atleast_1d(data)
-        data = data.astype(self.default_coefficients.dtype)
+        # Values that do not fit in the type of the default coefficients keep their own type.
+        data = data.astype(np.result_type(data, self.default_coefficients))
 
         assert np.abs(order) <= degree, "Order must be between -l and l for degree l."
         assert data.shape == self._default_coefficients.shape, "Incompatible coefficient shapes."
@@ -270,7 +271,7 @@ def scale(shc, scale_function, power=1):
 
     for (degree, order) in shc.coefficients:
         factor = scale_function(degree, order) ** power
-        output.coefficients[(degree, order)] *= factor
+        output.set(degree, order, output.get(degree, order) * factor)
 
     return output
 
-- 
2.43.0


From 7966f05ead4b922c5d13f8c20028ed8a4ad16042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 27/39] fix: divide coefficients by NumPy integers

---
 starwinds_magnetogram/coefficients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index fd899ce..38c8187 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -155,7 +155,7 @@ class Coefficients(object):
             output.append(degree, order, coeffs**power)
         return output
 
-    def __truediv__(self, value): return multiply(self, value**-1)
+    def __truediv__(self, value): return multiply(self, value**-1.0)
 
     def truncated(self, degree_max): return truncated(self, degree_max)
 
-- 
2.43.0


From ed7c2c8d53b20007722ea341fe7874a7cb4d00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 28/39] fix: rotate sets of real coefficients

Rotating a set made from real or integer arrays raised an error.
---
 starwinds_magnetogram/rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/rotate.py b/starwinds_magnetogram/rotate.py
index 882ce94..ff8796b 100644
--- a/starwinds_magnetogram/rotate.py
+++ b/starwinds_magnetogram/rotate.py
@@ -24,7 +24,7 @@ def rotate_magnetogram(magnetogram, rotation):
 
         for order_m_out in range(-order_m_max, order_m_max + 1):
 
-            coeff_out = magnetogram.default_coefficients
+            coeff_out = magnetogram.default_coefficients.astype(complex)  # Also for real coefficients.
 
             for order_m_in in range(-order_m_max, order_m_max + 1):
                 wde = spherical_functions.Wigner_D_element(rotation, deg_l_in, order_m_in, order_m_out)
-- 
2.43.0


From cbfc769aa064e7c72af58977b108546a12e52519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 29/39] fix: convert points whose squared coordinates overflow

Points with large integer coordinates got wrong radii and polar angles, and so did
points with coordinates above 1e154 or below 1e-162.
---
 starwinds_magnetogram/coordinate_transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/coordinate_transforms.py b/starwinds_magnetogram/coordinate_transforms.py
index 695cd6b..db1b14d 100644
--- a/starwinds_magnetogram/coordinate_transforms.py
+++ b/starwinds_magnetogram/coordinate_transforms.py
@@ -17,7 +17,8 @@ def spherical_coordinates_from_rectangular(px, py, pz):
     :param pz: z coordinates
     :return: radial, polar and azimuth coordinates
     """
-    pr = (px**2 + py**2 + pz**2)**(1/2)
+    px, py, pz = (np.asarray(p, dtype=float) for p in (px, py, pz))  # Squares of integers can overflow.
+    pr = np.hypot(np.hypot(px, py), pz)
     pp = np.arccos(np.divide(pz, pr, out=np.zeros_like(pr), where=pr != 0))
     pa = np.arctan2(py, px)
 
-- 
2.43.0


From 11569b665386373689ea40fb57038b35f6a6ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 30/39] fix: visible fractions for directions whose squared
 components overflow

Long integer directions gave wrong fractions.
---
 starwinds_magnetogram/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index d8fbaa2..2e5d56e 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -80,6 +80,8 @@ class ZdiGeometry:
         :param projection_direction: direction of the projection
         :return:
         """
+        projection_direction = np.asarray(projection_direction, dtype=float)
+        projection_direction = projection_direction / np.max(np.abs(projection_direction))  # Squares can overflow.
         proj_dir_length = np.sum(projection_direction ** 2) ** .5  # Length of projection_direction
 
         # Calculate dot product of unit projection direction and unit surface normals.
-- 
2.43.0


From 65e89752c7548cad99af14fd80ab759ec8bf6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 31/39] fix: take NumPy integers as numbers of corners

They gave geometries without any facets.
---
 starwinds_magnetogram/geometry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starwinds_magnetogram/geometry.py b/starwinds_magnetogram/geometry.py
index 2e5d56e..16a4b7c 100644
--- a/starwinds_magnetogram/geometry.py
+++ b/starwinds_magnetogram/geometry.py
@@ -11,6 +11,10 @@ class ZdiGeometry:
                  polar_corners=None,
                  azimuthal_corners=None):
 
+        # NumPy integers are counts as well.
+        polar_corners, azimuthal_corners = (int(c) if isinstance(c, np.integer) else c
+                                            for c in (polar_corners, azimuthal_corners))
+
         if type(polar_corners) is int and type(azimuthal_corners) is int:
             polar_corners = np.linspace(0, np.pi, polar_corners)
             azimuthal_corners = np.linspace(0, 2 * np.pi, azimuthal_corners)
-- 
2.43.0


From 95f6416a8821fad80edd8d39885bb91e1f205008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 32/39] fix: longitudinal field for a single observer azimuth

---
 starwinds_magnetogram/longitudinal_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/longitudinal_field.py b/starwinds_magnetogram/longitudinal_field.py
index 0a72668..665c94e 100644
--- a/starwinds_magnetogram/longitudinal_field.py
+++ b/starwinds_magnetogram/longitudinal_field.py
@@ -35,7 +35,7 @@ def get_longitudinal_field_curve(zdi_geometry, zdi_magnetogram, observer_polar,
     #     raise TypeError("Unexpected field type \"%s\"" % field)
     field_xyz = zdi_magnetogram.get_cartesian_field(*zdi_geometry.centers())
 
-    for i, observer_azimuth in enumerate(observer_azimuths):
+    for i, observer_azimuth in np.ndenumerate(observer_azimuths):
         observer_direction = np.array(
             coordinate_transforms.rectangular_coordinates_from_spherical(1, observer_polar, observer_azimuth))
 
-- 
2.43.0


From f1bc6cbf68ef6853fe39462f2fe14f2810d54310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 33/39] fix: default beta and gamma coefficients when alpha is
 a list

---
 starwinds_magnetogram/zdi_magnetogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 40a6eab..3119f61 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -50,9 +50,9 @@ class ZdiMagnetogram:
         :param gamma_lm: Array of complex $\gamma$ coefficients
         """
         if beta_lm is None:
-            beta_lm = 0 * alpha_lm
+            beta_lm = 0 * np.asarray(alpha_lm)
         if gamma_lm is None:
-            gamma_lm = 0 * alpha_lm
+            gamma_lm = 0 * np.asarray(alpha_lm)
 
         # One dimension or more please.
         self.degrees_l = np.atleast_1d(degrees_l)
-- 
2.43.0


From 7e2ca8e4974f680465c655037acbe7f3c9b17d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:48 +0000
Subject: [PATCH 34/39] fix: empty arrays for a selection without coefficients

---
 starwinds_magnetogram/coefficients.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/starwinds_magnetogram/coefficients.py b/starwinds_magnetogram/coefficients.py
index 38c8187..df560bd 100644
--- a/starwinds_magnetogram/coefficients.py
+++ b/starwinds_magnetogram/coefficients.py
@@ -120,11 +120,6 @@ class Coefficients(object):
                 full_set_requested_degrees.append(degree)
                 full_set_requested_orders.append(order)
 
-        # Initialize to right size with new dimension first.
-        coefficients = np.stack((self.default_coefficients,)*len(full_set_requested_degrees))
-        assert coefficients.size == len(full_set_requested_degrees) * self.default_coefficients.size, "Sizes must match."
-        assert coefficients.dtype == self.default_coefficients.dtype, "Data type must match."
-
         returned_degrees = []
         returned_orders = []
         returned_coefficients = []
@@ -134,6 +129,11 @@ class Coefficients(object):
                 returned_orders.append(_ord)
                 returned_coefficients.append(self.get(_deg, _ord))
 
+        if not returned_degrees:
+            # Nothing is selected: empty arrays of the right types, with the new dimension first.
+            return (np.empty(0, dtype=int), np.empty(0, dtype=int),
+                    np.empty((0,) + np.shape(self.default_coefficients), dtype=self.default_coefficients.dtype))
+
         return np.asarray(returned_degrees), np.asarray(returned_orders), np.asarray(returned_coefficients)
 
     def copy(self): return copy(self)
-- 
2.43.0


From 6941bd14678bc089a820328618fa6056f39079ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:58 +0000
Subject: [PATCH 35/39] fix: normalisation of negative orders by the
 logarithmic method

---
 starwinds_magnetogram/zdi_magnetogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 3119f61..15f0716 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -622,7 +622,7 @@ def get_c_lm(degrees_l, orders_m, method='low_order'):
         # This takes better care of the cancellations in (l-m)!/(l+m)!
         @np.vectorize
         def factorial_expression(l, m):
-            return np.exp(-np.sum(np.log(np.arange(l - m + 1, l + m + 1))))
+            return np.exp(-np.sign(m) * np.sum(np.log(np.arange(l - abs(m) + 1, l + abs(m) + 1))))
 
         c_lm2 = (2 * degrees_l + 1) / (4 * np.pi) * factorial_expression(degrees_l, orders_m)
 
-- 
2.43.0


From 0433ab4f2548b3734f32eea22f872f7285c97b11 Mon Sep 17 00:00:00 2001
From: root <r@x>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 36/39] fix: draw the legend of the stream traces with the line
 widths of the plot

The lines are three points wide at the largest tangential field on the map,
the legend was three points wide at its own largest entry.
---
 starwinds_magnetogram/plot_pfss.py | 2 +-
 starwinds_magnetogram/plot_zdi.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starwinds_magnetogram/plot_pfss.py b/starwinds_magnetogram/plot_pfss.py
index 6a03896..c510fd6 100644
--- a/starwinds_magnetogram/plot_pfss.py
+++ b/starwinds_magnetogram/plot_pfss.py
@@ -141,7 +141,7 @@ def plot_streamtraces(coefficients, geometry=ZdiGeometry()):
 
     locator = MaxNLocator(nbins=3, prune="lower")
     line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-    line_thicknesses = 3 * line_values / np.max(line_values)
+    line_thicknesses = 3 * line_values / np.max(B_tangential_mag)
 
     custom_lines = [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
     custom_strs = [r"$B_\perp=%4.1f$" % x for x in line_values]
diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index c6f9d0a..debca02 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -399,7 +399,7 @@ def plot_streamtraces(mgm, geometry=None, ax=None):
 
         locator = MaxNLocator(nbins=3, prune="lower")
         line_values = locator.tick_values(np.min(B_tangential_mag), np.max(B_tangential_mag))
-        line_thicknesses = 3 * line_values / np.max(line_values)
+        line_thicknesses = 3 * line_values / np.max(B_tangential_mag)
 
         legend_items += [Line2D([0], [0], color='k', lw=l) for l in line_thicknesses]
         legend_strs += [r"$B_\perp=%4.1f$" % x for x in line_values]
-- 
2.43.0


From e47a3b65ea689218d39313c740d02c6ce00f753c Mon Sep 17 00:00:00 2001
From: root <r@x>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 37/39] fix: honour symmetric and cmap in plot_zdi_components

Both parameters were accepted and ignored.
---
 starwinds_magnetogram/plot_zdi.py | 3 ++-
 starwinds_magnetogram/plots.py    | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/starwinds_magnetogram/plot_zdi.py b/starwinds_magnetogram/plot_zdi.py
index debca02..148fb72 100644
--- a/starwinds_magnetogram/plot_zdi.py
+++ b/starwinds_magnetogram/plot_zdi.py
@@ -284,7 +284,8 @@ def plot_zdi_components(mgm, radius=1, axs=None, zg=None, symmetric=None, cmap=N
     Brpa = np.array([g(polar_centers, azimuth_centers) for g in getter_fns])
 
     axs = starwinds_magnetogram.plots.plot_components(polar_centers, azimuth_centers,
-                                                        Brpa, axs, azimuth_corners, polar_corners, radius)
+                                                        Brpa, axs, azimuth_corners, polar_corners, radius,
+                                                        symmetric=symmetric, cmap=cmap)
 
     return axs
 
diff --git a/starwinds_magnetogram/plots.py b/starwinds_magnetogram/plots.py
index b7b984c..da62881 100644
--- a/starwinds_magnetogram/plots.py
+++ b/starwinds_magnetogram/plots.py
@@ -44,7 +44,7 @@ def place_colorbar_axis_right(ax, dx=.22):
 
 
 def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_corners=None, polar_corners=None,
-                    radius=1, symmetric=None):
+                    radius=1, symmetric=None, cmap=None):
     latex_names = ('B_r', r'B_\theta', r'B_\phi')
     extremum_markers = ('ox', '^v', '<>')
 
@@ -58,7 +58,8 @@ def plot_components(polar_centers, azimuth_centers, field_centers, axs, azimuth_
                                                 polar_corners=polar_corners, azimuth_corners=azimuth_corners,
                                                 legend_str=latex_name,
                                                 abs_max=abs_max,
-                                                symmetric=symmetric)
+                                                symmetric=symmetric,
+                                                cmap=cmap)
 
         add_extrema(polar_centers, azimuth_centers, Bi, ax, legend_str=latex_name, markers=markers)
 
-- 
2.43.0


From fb0de7fee7753fe1e234bd291e3f80b15833ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 38/39] fix: normalisation of degrees and orders that add up to
 more than 170

The factorial overflows there and the terms were silently left out of
the field.
---
 starwinds_magnetogram/pfss_magnetogram.py | 9 +++------
 starwinds_magnetogram/zdi_magnetogram.py  | 3 +--
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/starwinds_magnetogram/pfss_magnetogram.py b/starwinds_magnetogram/pfss_magnetogram.py
index 878a934..4293620 100644
--- a/starwinds_magnetogram/pfss_magnetogram.py
+++ b/starwinds_magnetogram/pfss_magnetogram.py
@@ -25,8 +25,7 @@ def theta_lm(deg_l, ord_m, points_polar):
         plm = sp.special.lpmv(ord_m, deg_l, np.cos(points_polar))
         # Correction (scaling)
         d0 = 0 + (ord_m == 0)
-        clm = (-1) ** ord_m * np.sqrt(sp.special.factorial(deg_l - ord_m)
-                                      / sp.special.factorial(deg_l + ord_m)) * np.sqrt(2 - d0)
+        clm = (-1) ** ord_m * np.sqrt(1 / sp.special.poch(deg_l - ord_m + 1, 2 * ord_m)) * np.sqrt(2 - d0)
         value = clm * plm
         return value
 
@@ -65,8 +64,7 @@ def theta_lm_over_sin(deg_l, ord_m, points_polar):
     :param points_polar: 2d array of polar coordinate values
     :return: 2d array of values
     """
-    clm = (-1) ** ord_m * np.sqrt(2 * sp.special.factorial(deg_l - ord_m)
-                                  / sp.special.factorial(deg_l + ord_m))
+    clm = (-1) ** ord_m * np.sqrt(2 / sp.special.poch(deg_l - ord_m + 1, 2 * ord_m))
     return clm * associated_legendre.calculate_lpmv_over_sin(deg_l, ord_m, points_polar) / max(ord_m, 1)
 
 
@@ -80,8 +78,7 @@ def calculate_all_theta(degree_l, order_m, points_polar, scipy=True):
     Pmn_cos_theta_result, Pmn_d_cos_theta_result = calculate_lpmn(degree_l, order_m, points_polar)
 
     d0 = 0 + (np.asarray(order_m) == 0)
-    clm = (-1) ** order_m * np.sqrt(sp.special.factorial(degree_l - order_m)
-                                  / sp.special.factorial(degree_l + order_m)) * np.sqrt(2 - d0)
+    clm = (-1) ** order_m * np.sqrt(1 / sp.special.poch(degree_l - order_m + 1, 2 * order_m)) * np.sqrt(2 - d0)
 
     buffered_theta_scipy = Pmn_cos_theta_result * clm
     buffered_dtheta_scipy = Pmn_d_cos_theta_result * clm
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 15f0716..58d30ed 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -615,8 +615,7 @@ def get_c_lm(degrees_l, orders_m, method='low_order'):
         c_lm2 = (
                 (2 * degrees_l + 1)
                 / (4 * np.pi)
-                * sp.special.factorial(degrees_l - orders_m)
-                / sp.special.factorial(degrees_l + orders_m)
+                / sp.special.poch(degrees_l - orders_m + 1, 2 * orders_m)  # (l+m)!/(l-m)!
         )
     else:
         # This takes better care of the cancellations in (l-m)!/(l+m)!
-- 
2.43.0


From cdebdc9aaed5d722d49028104c312c326767c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 39/39] fix: fields from unsigned or narrow integer degrees and
 orders

The expressions of degree and order overflow in such types, which gave wrong
polar and azimuthal fields (or an error when recovering coefficients), and
matrices could not be made from degrees given as floats.
---
 starwinds_magnetogram/converter.py       | 5 +++--
 starwinds_magnetogram/zdi_magnetogram.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/starwinds_magnetogram/converter.py b/starwinds_magnetogram/converter.py
index d969de7..c731270 100644
--- a/starwinds_magnetogram/converter.py
+++ b/starwinds_magnetogram/converter.py
@@ -172,8 +172,9 @@ def convert_latlon_to_zdi_coeffs(pl, az, field_r, field_polar, field_azimuthal,
 
 def get_zdi_coeffs(pl, az, degrees_l, orders_m, field_r, field_pl, field_az, area=None):
 
-    degrees_l = np.atleast_1d(degrees_l)
-    orders_m = np.atleast_1d(orders_m)
+    # Unsigned or narrow integers would overflow in the expressions of degree and order.
+    degrees_l = np.atleast_1d(degrees_l).astype(int)
+    orders_m = np.atleast_1d(orders_m).astype(int)
     orders_m_shape = orders_m.shape
 
     if pl.shape[0] <= pl.shape[1]:
diff --git a/starwinds_magnetogram/zdi_magnetogram.py b/starwinds_magnetogram/zdi_magnetogram.py
index 58d30ed..ace3a78 100644
--- a/starwinds_magnetogram/zdi_magnetogram.py
+++ b/starwinds_magnetogram/zdi_magnetogram.py
@@ -55,8 +55,9 @@ class ZdiMagnetogram:
             gamma_lm = 0 * np.asarray(alpha_lm)
 
         # One dimension or more please.
-        self.degrees_l = np.atleast_1d(degrees_l)
-        self.orders_m = np.atleast_1d(orders_m)
+        # Unsigned or narrow integers would overflow in the expressions of degree and order.
+        self.degrees_l = np.atleast_1d(degrees_l).astype(int)
+        self.orders_m = np.atleast_1d(orders_m).astype(int)
         self.alpha = np.atleast_1d(alpha_lm)
         self.beta = np.atleast_1d(beta_lm)
         self.gamma = np.atleast_1d(gamma_lm)
-- 
2.43.0

