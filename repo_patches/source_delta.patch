From 37905d2db320d28f68c07963cc845fcbc60cedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 01/15] fix: recompute omega_m when the cosmology is updated

omega_m was a functools.cached_property, so it kept its first value after
update() changed omega_c or omega_b, and with it the baryon fractions and
the emulated non-linear halo bias.
---
 src/onepower/hmi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 37ff859..e9769db 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,7 +9,6 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
-from functools import cached_property
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -247,7 +246,7 @@ class CosmologyBase(Framework):
             wa=self.wa,
         )
 
-    @cached_property
+    @cached_quantity
     def omega_m(self):
         """Matter density parameter."""
         return self.cosmo_model.Om0
-- 
2.43.0


From 4b4c2ea0df01c4a0fbeee80a844634180fdd26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:46 +0000
Subject: [PATCH 02/15] fix: do not overwrite the cached mass definition of the
 first redshift

The halo model generator handed its cached mdef_params[0] and
halo_profile_params dictionaries to DMHaloModel, whose update() merges into
them in place. The next evaluation then used the last redshift's virial
overdensity for the first redshift (mead2020 ingredients).
---
 src/onepower/hmi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index e9769db..561d70a 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -1110,7 +1110,7 @@ class HaloModelIngredients(CosmologyBase):
             disable_mass_conversion=self.disable_mass_conversion,
             bias_model=self._bias_mod,
             halo_profile_model=self.halo_profile_model_dm,
-            halo_profile_params=self.halo_profile_params,
+            halo_profile_params=dict(self.halo_profile_params),
             halo_concentration_model=self._halo_concentration_mod_dm,
             cosmo_model=self.cosmo_model,
             sigma_8=self.sigma_8,
@@ -1119,7 +1119,7 @@ class HaloModelIngredients(CosmologyBase):
             transfer_params=self.transfer_params,
             growth_model=self.growth_model,
             growth_params=self.growth_params,
-            mdef_params=self.mdef_params[0],
+            mdef_params=dict(self.mdef_params[0]),
             delta_c=self._delta_c_mod[0],
         )
         y = x.clone()
-- 
2.43.0


From 595529b9cbe489ce0267e037229266a4b685405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:37 +0000
Subject: [PATCH 03/15] fix: give the halo model matter spectrum its own cache
 slot

hmf stores the cached value of _power_spectrum_mm and power_spectrum_mm
under the same attribute (it strips a leading underscore). With
response=True the two differ, so after power_spectrum_mm had been read the
other spectra were normalised by the non-linear input itself: results
depended on the order of reads, and some orders failed after an update.
---
 src/onepower/pk.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 4258218..79edfd7 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -1541,7 +1541,7 @@ class Spectra(HaloModelIngredients):
         return PowerSpectrumResult(pk_tot=self._pk_lin[np.newaxis, :, :])
 
     @cached_quantity
-    def _power_spectrum_mm(
+    def _halo_model_spectrum_mm(
         self,
     ):
         """
@@ -1650,7 +1650,7 @@ class Spectra(HaloModelIngredients):
                 pk_tot=pk_tot,
                 galaxy_linear_bias=None,
             )
-        return self._power_spectrum_mm
+        return self._halo_model_spectrum_mm
 
     # --------------------------------  Galaxy spectra specific funtions ------------------------------
 
@@ -1966,9 +1966,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2059,9 +2059,9 @@ class Spectra(HaloModelIngredients):
         )
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h,
@@ -2432,9 +2432,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_sm_1h + pk_cm_2h + pk_sm_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2555,9 +2555,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_ss_1h + pk_cc_2h + pk_ss_2h + pk_cs_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
@@ -2653,9 +2653,9 @@ class Spectra(HaloModelIngredients):
             pk_tot = pk_cs_1h + pk_cs_2h + pk_cc_2h
 
         if self.response:
-            pk_1h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_2h *= self._pk_nl / self._power_spectrum_mm.pk_tot
-            pk_tot *= self._pk_nl / self._power_spectrum_mm.pk_tot
+            pk_1h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_2h *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
+            pk_tot *= self._pk_nl / self._halo_model_spectrum_mm.pk_tot
 
         return PowerSpectrumResult(
             pk_1h=pk_1h, pk_2h=pk_2h, pk_tot=pk_tot, galaxy_linear_bias=None
-- 
2.43.0


From f320504810099b998d3d748939f7ee2c8529c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 04/15] fix: let models be updated again after one of their
 switches has changed

After a switch such as nonlinear_mode changed, hmf left the deleted
quantities listed as dependents of other parameters. Changing one of those
before the next read made reads fail with KeyError, or go stale.
---
 src/onepower/add.py             |  2 +-
 src/onepower/bnl.py             |  3 ++-
 src/onepower/hmi.py             |  3 ++-
 src/onepower/ia.py              |  3 ++-
 src/onepower/utils/framework.py | 22 ++++++++++++++++++++++
 5 files changed, 29 insertions(+), 4 deletions(-)
 create mode 100644 src/onepower/utils/framework.py

diff --git a/src/onepower/add.py b/src/onepower/add.py
index b0ab2e2..a1c925b 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -3,9 +3,9 @@ from functools import cached_property
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import parameter
-from hmf._internals._framework import Framework
 
 from .pk import PowerSpectrumResult, Spectra
+from .utils.framework import Framework
 
 
 class UpsampledSpectra(Framework):
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 4ed7af3..5a1b9b4 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -10,7 +10,8 @@ from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 try:
     from dark_emulator import darkemu
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 561d70a..ac3fcf0 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -16,9 +16,10 @@ from scipy.interpolate import interp1d
 from scipy.optimize import root_scalar
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
 from hmf.halos.mass_definitions import SphericalOverdensity
 
+from .utils.framework import Framework
+
 # Silencing a warning from hmf for which the nonlinear mass is still correctly calculated
 warnings.filterwarnings('ignore', message='Nonlinear mass outside mass range')
 
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 0d41683..25a29fe 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -13,7 +13,8 @@ from scipy.interpolate import RegularGridInterpolator, interp1d
 from scipy.special import binom, gamma
 
 from hmf._internals._cache import cached_quantity, parameter
-from hmf._internals._framework import Framework
+
+from .utils.framework import Framework
 
 
 class AlignmentAmplitudes(Framework):
diff --git a/src/onepower/utils/framework.py b/src/onepower/utils/framework.py
new file mode 100644
index 0000000..4c6018a
--- /dev/null
+++ b/src/onepower/utils/framework.py
@@ -0,0 +1,22 @@
+"""The caching framework used by the classes in this package."""
+
+from hmf._internals._cache import hidden_loc
+from hmf._internals._framework import Framework as _Framework
+
+
+class Framework(_Framework):
+    """
+    The hmf framework, with a complete reset of quantities that depend on a switch.
+
+    When a switch changes, hmf deletes the quantities depending on it, so that their dependencies
+    are found anew when they are next accessed, but leaves them listed as dependents of all their
+    former parameters. Changing one of those before the quantity is accessed again marks it for
+    recalculation without an index: the next access fails or misses later changes.
+    """
+
+    def __delattr__(self, name):
+        super().__delattr__(name)
+        dependents = getattr(self, hidden_loc(self, 'recalc_par_prop'), {})
+        for par in dependents:
+            # A new set, as hmf is iterating over the one of the changed switch.
+            dependents[par] = dependents[par] - {name}
-- 
2.43.0


From 2be58a55a76b0681318b81a07e2abdd4dce95231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:25 +0000
Subject: [PATCH 05/15] fix: track dependencies anew when a branch-selecting
 parameter changes

Quantities that take a different branch depending on hmcode_ingredients,
mdef_model, dewiggle, pointmass, compute_observable, hod_model, or on
whether beta_nl, matter_power_lin or matter_power_nl are given, read other
parameters in each branch. As plain parameters these did not re-index, so
later updates of the newly used parameters left stale results.
---
 src/onepower/hmi.py |  4 ++--
 src/onepower/pk.py  | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index ac3fcf0..226827d 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -623,7 +623,7 @@ class HaloModelIngredients(CosmologyBase):
         self.overdensity = overdensity
         self.delta_c = delta_c
 
-    @parameter('param')
+    @parameter('switch')
     def hmcode_ingredients(self, val):
         """
         Correction model from Mead et al.
@@ -699,7 +699,7 @@ class HaloModelIngredients(CosmologyBase):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def mdef_model(self, val):
         """
         Mass definition model (for hmf).
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index 79edfd7..d947f71 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -238,7 +238,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def beta_nl(self, val):
         r"""
         Non-linear bias parameter :math:`\beta_{\rm nl}`.
@@ -247,7 +247,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def dewiggle(self, val):
         """
         Whether to dewiggle the power spectrum.
@@ -256,7 +256,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def matter_power_lin(self, val):
         """
         Linear matter power spectrum.
@@ -265,7 +265,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def matter_power_nl(self, val):
         """
         Non-linear matter power spectrum
@@ -310,7 +310,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def pointmass(self, val):
         """
         Whether to use point mass approximation.
@@ -319,7 +319,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def compute_observable(self, val):
         """
         Whether to compute observable.
@@ -400,7 +400,7 @@ class Spectra(HaloModelIngredients):
         """
         return val
 
-    @parameter('model')
+    @parameter('switch')
     def hod_model(self, val):
         r"""
         An HOD model to use
-- 
2.43.0


From 7687281843d6dd53225c7bff42ff2a5c7b7a60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:11 +0000
Subject: [PATCH 06/15] fix: do not write derived quantities into align_params

Reading any alignment quantity added z_vec, mass_in, c_in and others to the
align_params parameter, and so to the dictionary the caller had passed.
---
 src/onepower/pk.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index d947f71..f48819c 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -2082,17 +2082,16 @@ class Spectra(HaloModelIngredients):
         object
             The SatelliteAligment class
         """
-        self.align_params.update(
-            {
-                'z_vec': self.z_vec,
-                'mass_in': self.mass,
-                'c_in': self.conc_cen,
-                'r_s_in': self.r_s_cen,
-                'rvir_in': self.rvir_cen[0],
-                'method': 'fftlog',
-            }
-        )
-        return SatelliteAlignment(**self.align_params)
+        align_params = {
+            **self.align_params,
+            'z_vec': self.z_vec,
+            'mass_in': self.mass,
+            'c_in': self.conc_cen,
+            'r_s_in': self.r_s_cen,
+            'rvir_in': self.rvir_cen[0],
+            'method': 'fftlog',
+        }
+        return SatelliteAlignment(**align_params)
 
     @cached_quantity
     def beta_cen(self):
-- 
2.43.0


From e51a7ad0d5d05eb81a07ebfb7adf21d3818b3e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:38 +0000
Subject: [PATCH 07/15] fix: keep dictionary parameters separate from the
 caller's dictionaries

update() merges into the stored dictionary. As the constructor and update()
stored the caller's own dictionary, updating one model changed the caller's
settings, and any other model built from them.
---
 src/onepower/hmi.py |  5 +++--
 src/onepower/pk.py  | 13 +++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 226827d..0ff585b 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,6 +9,7 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
+from copy import copy
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -778,7 +779,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def growth_model(self, val):
@@ -796,7 +797,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def norm_cen(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index f48819c..cb00c27 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -37,6 +37,7 @@ and the integral over beta_nl is
 
 import numpy as np
 import warnings
+from copy import copy
 from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter1d
@@ -308,7 +309,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('switch')
     def pointmass(self, val):
@@ -335,7 +336,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def hod_params(self, val):
@@ -344,7 +345,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def hod_settings(self, val):
@@ -353,7 +354,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def obs_settings(self, val):
@@ -362,7 +363,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def t_eff(self, val):
@@ -398,7 +399,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('switch')
     def hod_model(self, val):
-- 
2.43.0


From 29c2ba90ed33aa86d2f79d6c35918d2c62b9e76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:37 +0000
Subject: [PATCH 08/15] fix: keep the settings of an occupation distribution
 fixed once it is built

A HOD held the model's live hod_settings dictionary (or the module-wide
defaults), so later updates of the model changed objects returned earlier.
---
 src/onepower/hod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index b86c683..95eaa8d 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -84,7 +84,7 @@ class HaloOccupationDistribution(Component):
         self.cosmo = cosmo
         self.mass = mass[np.newaxis, np.newaxis, :]
         self.z_vec = z_vec
-        self.hod_settings = hod_settings or hod_settings_defaults
+        self.hod_settings = dict(hod_settings or hod_settings_defaults)
         self.dndlnm = dndlnm
         self.halo_bias = halo_bias
 
-- 
2.43.0


From f1cad598fe206ca9cc7ab729f0428fafb7436583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:17 +0000
Subject: [PATCH 09/15] fix: evaluate colossus concentrations in the model's
 own cosmology

Colossus has a single cosmology per process, set when a relation is
created but used when it is evaluated. With two models alive, concentrations
of one were computed in the cosmology of the other.
---
 src/onepower/hmi.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 0ff585b..0d2a4ba 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -9,6 +9,7 @@ import numpy as np
 import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
+from colossus.cosmology import cosmology
 from copy import copy
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
@@ -38,6 +39,38 @@ DMHaloModel.ERROR_ON_BAD_MDEF = False
 VALID_HMCODE_INGREDIENTS = ['mead2020_feedback', 'mead2020', 'fit', None]
 
 
+def colossus_concentration(model):
+    """
+    A colossus concentration relation that is always evaluated in its own cosmology.
+
+    Colossus keeps one cosmology per process, which halomod only sets when it creates the relation.
+
+    Parameters:
+    -----------
+    model : str
+        Name of the concentration relation in colossus.
+
+    Returns:
+    --------
+    type
+        The concentration relation.
+    """
+    base = make_colossus_cm(model)
+
+    class ColossusConcentration(base):
+        def __init__(self, *args, **kwargs):
+            super().__init__(*args, **kwargs)
+            self._colossus_cosmo = cosmology.getCurrent()
+
+        def cm(self, m, z=0):
+            cosmology.setCurrent(self._colossus_cosmo)
+            return super().cm(m, z)
+
+    ColossusConcentration.__name__ = base.__name__
+    ColossusConcentration.__qualname__ = base.__qualname__
+    return ColossusConcentration
+
+
 class SOVirial_Mead(SphericalOverdensity):
     """
     SOVirial overdensity definition from Mead et al. (2021).
@@ -989,7 +1022,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_dm)
+                    colossus_concentration(self.halo_concentration_model_dm)
                 )
         return val
 
@@ -1012,7 +1045,7 @@ class HaloModelIngredients(CosmologyBase):
                 )
             except AttributeError:
                 val = interp_concentration(
-                    make_colossus_cm(self.halo_concentration_model_sat)
+                    colossus_concentration(self.halo_concentration_model_sat)
                 )
         return val
 
-- 
2.43.0


From 02be12a6019b51331eae8124203b31e8dfa91bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:03 +0000
Subject: [PATCH 10/15] fix: track beta_two and the choices between alignment
 scalings as switches

beta_two was a plain attribute, so changing it left amplitudes computed with
the old value; changing a scaling or the transform method left the amplitudes
blind to parameters that only the new choice uses.
---
 src/onepower/ia.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 25a29fe..c859ebf 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -101,7 +101,7 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def central_ia_depends_on(self, val):
         """
         Validate the central intrinsic alignment dependencies.
@@ -117,7 +117,7 @@ class AlignmentAmplitudes(Framework):
             )
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def satellite_ia_depends_on(self, val):
         """
         Validate the satellite intrinsic alignment dependencies.
@@ -169,6 +169,15 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @parameter('switch')
+    def beta_two(self, val):
+        """
+        Secondary beta parameter. If None a single power law is used.
+
+        :type: float
+        """
+        return val
+
     @parameter('param')
     def beta_sat(self, val):
         """
@@ -598,7 +607,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def method(self, val):
         """
         Which method to perform Fourier/Hankel transform to use
-- 
2.43.0


From 239c387f2127681c9062595816e26d6cac55237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:03 +0000
Subject: [PATCH 11/15] fix: recompute mixed spectra after an update

The fractions and both models were cached with functools.cached_property, so
results() ignored updates made after its first call.
---
 src/onepower/add.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index a1c925b..2cf51e1 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,8 +1,8 @@
 import numpy as np
-from functools import cached_property
+from copy import copy
 from scipy.interpolate import interp1d
 
-from hmf._internals._cache import parameter
+from hmf._internals._cache import cached_quantity, parameter
 
 from .pk import PowerSpectrumResult, Spectra
 from .utils.framework import Framework
@@ -54,7 +54,7 @@ class UpsampledSpectra(Framework):
         self._model_2_params = model_2_params
         self.extrapolate_option = extrapolate_option
 
-    @parameter('param')
+    @parameter('switch')
     def model(self, val):
         """
         Instance of Spectra(), pre-initialised for saving computing resources.
@@ -70,16 +70,16 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return val
+        return copy(val)
 
-    @parameter('param')
+    @parameter('switch')
     def _model_2_params(self, val):
         """
         Parameters for the second halo model.
 
         :type: dict
         """
-        return val
+        return copy(val)
 
     @parameter('param')
     def fraction_z(self, val):
@@ -90,7 +90,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @parameter('param')
+    @parameter('switch')
     def fraction(self, val):
         """
         Red/blue fraction of galaxies in sample as a function of redshift.
@@ -126,7 +126,7 @@ class UpsampledSpectra(Framework):
         """
         return val
 
-    @cached_property
+    @cached_quantity
     def frac_1(self):
         """
         Calculate the fraction for the first model.
@@ -151,7 +151,7 @@ class UpsampledSpectra(Framework):
         )
         return f(self.z)
 
-    @cached_property
+    @cached_quantity
     def frac_2(self):
         """
         Calculate the fraction for the second model.
@@ -165,7 +165,7 @@ class UpsampledSpectra(Framework):
             return np.zeros_like(self.z)
         return 1.0 - self.frac_1
 
-    @cached_property
+    @cached_quantity
     def power_1(self):
         """
         First Halo Model.
@@ -179,7 +179,7 @@ class UpsampledSpectra(Framework):
             return Spectra(**self._model_1_params)
         return self.model
 
-    @cached_property
+    @cached_quantity
     def power_2(self):
         """
         Second Halo Model.
-- 
2.43.0


From 7d1a41e292665008769538a8c18fa9334bd90b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:16 +0000
Subject: [PATCH 12/15] fix: track A_s and z_dep of the non-linear bias as
 switches

With A_s given, sigma_8 was never recorded as a dependency of the emulator, so
dropping A_s and then changing sigma_8 kept the old bias.
---
 src/onepower/bnl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index 5a1b9b4..ff86f30 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -120,7 +120,7 @@ if HAVE_DARKEMU:
             """
             return val
 
-        @parameter('param')
+        @parameter('switch')
         def A_s(self, val):
             """
             Amplitude of the primordial power spectrum.
@@ -183,7 +183,7 @@ if HAVE_DARKEMU:
             """
             return val
 
-        @parameter('param')
+        @parameter('switch')
         def z_dep(self, val):
             """
             If redshift dependence is to be evaluated in Bnl
-- 
2.43.0


From b50cc26eb2e5d9360ff14a63e05b0a8288f80a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 13/15] fix: read the observables file once per occupation
 distribution

---
 src/onepower/hod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/onepower/hod.py b/src/onepower/hod.py
index 95eaa8d..bd7a533 100644
--- a/src/onepower/hod.py
+++ b/src/onepower/hod.py
@@ -5,6 +5,7 @@ using various HOD models and conditional observable functions (COFs).
 """
 
 import numpy as np
+from functools import cached_property
 from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.special import erf
@@ -158,10 +159,11 @@ class HaloOccupationDistribution(Component):
         )
         return halo_bias_fnc(self.z)
 
-    @property
+    @cached_property
     def data(self):
         """
         Returns the z_bins, obs_min and obs_max quantities from tabulated observables file.
+        The file is read once, so that all quantities come from the same version of it.
 
         Returns:
         --------
-- 
2.43.0


From 8e77df9e5645f5b4c8eb530ca2691e865150e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:56 +0000
Subject: [PATCH 14/15] fix: read a luminosity catalogue once for luminosities
 and their distribution

---
 src/onepower/ia.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index c859ebf..9575364 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -240,33 +240,47 @@ class AlignmentAmplitudes(Framework):
         """
         return val
 
+    @cached_quantity
+    def _lum_and_pdf_centrals(self):
+        """
+        Luminosities and their PDF for centrals, from one reading of the file.
+        """
+        return self._initialize_luminosity_array('centrals')
+
+    @cached_quantity
+    def _lum_and_pdf_satellites(self):
+        """
+        Luminosities and their PDF for satellites, from one reading of the file.
+        """
+        return self._initialize_luminosity_array('satellites')
+
     @cached_quantity
     def lum_centrals(self):
         """
         Returns the luminosity array for centrals.
         """
-        return self._initialize_luminosity_array('centrals')[0]
+        return self._lum_and_pdf_centrals[0]
 
     @cached_quantity
     def lum_pdf_z_centrals(self):
         """
         Returns the luminosity array for satellites.
         """
-        return self._initialize_luminosity_array('centrals')[1]
+        return self._lum_and_pdf_centrals[1]
 
     @cached_quantity
     def lum_satellites(self):
         """
         Returns the luminosity PDF array for centrals.
         """
-        return self._initialize_luminosity_array('satellites')[0]
+        return self._lum_and_pdf_satellites[0]
 
     @cached_quantity
     def lum_pdf_z_satellites(self):
         """
         Returns the luminosity PDF array for satellites.
         """
-        return self._initialize_luminosity_array('satellites')[1]
+        return self._lum_and_pdf_satellites[1]
 
     def _initialize_luminosity_array(self, galaxy_type):
         """
-- 
2.43.0


From 5be0ff6656f795c2dcd8da6cabc8cec680caa83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:25 +0000
Subject: [PATCH 15/15] fix: keep array parameters separate from the caller's
 arrays

A caller that writes new values into an array it passed before, and passes it
again, changed the stored parameter along with it: the update then saw no
difference and later answers were those of the old values.
---
 src/onepower/add.py | 14 +++++++-------
 src/onepower/bnl.py |  7 ++++---
 src/onepower/hmi.py | 18 +++++++++---------
 src/onepower/ia.py  | 11 ++++++-----
 src/onepower/pk.py  | 20 ++++++++++----------
 5 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/onepower/add.py b/src/onepower/add.py
index 2cf51e1..ac7995e 100644
--- a/src/onepower/add.py
+++ b/src/onepower/add.py
@@ -1,5 +1,5 @@
 import numpy as np
-from copy import copy
+from copy import deepcopy
 from scipy.interpolate import interp1d
 
 from hmf._internals._cache import cached_quantity, parameter
@@ -70,7 +70,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('switch')
     def _model_2_params(self, val):
@@ -79,7 +79,7 @@ class UpsampledSpectra(Framework):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def fraction_z(self, val):
@@ -88,7 +88,7 @@ class UpsampledSpectra(Framework):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('switch')
     def fraction(self, val):
@@ -97,7 +97,7 @@ class UpsampledSpectra(Framework):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def z(self, val):
@@ -106,7 +106,7 @@ class UpsampledSpectra(Framework):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def k(self, val):
@@ -115,7 +115,7 @@ class UpsampledSpectra(Framework):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def extrapolate_option(self, val):
diff --git a/src/onepower/bnl.py b/src/onepower/bnl.py
index ff86f30..a50db6e 100644
--- a/src/onepower/bnl.py
+++ b/src/onepower/bnl.py
@@ -6,6 +6,7 @@ an analytic prescription from Flamingo sims.
 """
 
 import numpy as np
+from copy import deepcopy
 from collections import OrderedDict
 from scipy.interpolate import RegularGridInterpolator, interp1d
 
@@ -91,7 +92,7 @@ if HAVE_DARKEMU:
 
             :type: array_like
             """
-            return val
+            return deepcopy(val)
 
         @parameter('param')
         def z_vec(self, val):
@@ -100,7 +101,7 @@ if HAVE_DARKEMU:
 
             :type: array_like
             """
-            return val
+            return deepcopy(val)
 
         @parameter('param')
         def k_vec(self, val):
@@ -109,7 +110,7 @@ if HAVE_DARKEMU:
 
             :type: array_like
             """
-            return val
+            return deepcopy(val)
 
         @parameter('param')
         def sigma_8(self, val):
diff --git a/src/onepower/hmi.py b/src/onepower/hmi.py
index 0d2a4ba..1df921d 100644
--- a/src/onepower/hmi.py
+++ b/src/onepower/hmi.py
@@ -10,7 +10,7 @@ import warnings
 from astropy.cosmology import Flatw0waCDM, Planck15
 from astropy import units as u
 from colossus.cosmology import cosmology
-from copy import copy
+from copy import deepcopy
 from halomod.concentration import interp_concentration, make_colossus_cm
 from halomod.halo_model import DMHaloModel
 from scipy.integrate import quad, simpson, solve_ivp
@@ -159,7 +159,7 @@ class CosmologyBase(Framework):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def h0(self, val):
@@ -677,7 +677,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def lnk_min(self, val):
@@ -812,7 +812,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def growth_model(self, val):
@@ -830,7 +830,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def norm_cen(self, val):
@@ -839,7 +839,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: float
         """
-        return np.atleast_1d(val)
+        return deepcopy(np.atleast_1d(val))
 
     @parameter('param')
     def norm_sat(self, val):
@@ -848,7 +848,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: float
         """
-        return np.atleast_1d(val)
+        return deepcopy(np.atleast_1d(val))
 
     @parameter('param')
     def eta_cen(self, val):
@@ -857,7 +857,7 @@ class HaloModelIngredients(CosmologyBase):
 
         :type: float
         """
-        return np.atleast_1d(val)
+        return deepcopy(np.atleast_1d(val))
 
     @parameter('param')
     def eta_sat(self, val):
@@ -865,7 +865,7 @@ class HaloModelIngredients(CosmologyBase):
         eta_sat : float
             Bloating parameter for satellite galaxies.
         """
-        return np.atleast_1d(val)
+        return deepcopy(np.atleast_1d(val))
 
     @parameter('param')
     def delta_c(self, val):
diff --git a/src/onepower/ia.py b/src/onepower/ia.py
index 9575364..93092d9 100644
--- a/src/onepower/ia.py
+++ b/src/onepower/ia.py
@@ -5,6 +5,7 @@ related to the intrinsic alignment of central and satellite galaxies within dark
 """
 
 import numpy as np
+from copy import deepcopy
 from astropy.io import fits
 from hankel import HankelTransform
 from scipy.fft import fht, fhtoffset
@@ -99,7 +100,7 @@ class AlignmentAmplitudes(Framework):
 
         :type: array-like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('switch')
     def central_ia_depends_on(self, val):
@@ -543,7 +544,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def c_in(self, val):
@@ -552,7 +553,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def r_s_in(self, val):
@@ -561,7 +562,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def rvir_in(self, val):
@@ -570,7 +571,7 @@ class SatelliteAlignment(AlignmentAmplitudes):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('param')
     def n_hankel(self, val):
diff --git a/src/onepower/pk.py b/src/onepower/pk.py
index cb00c27..f123eb1 100644
--- a/src/onepower/pk.py
+++ b/src/onepower/pk.py
@@ -37,7 +37,7 @@ and the integral over beta_nl is
 
 import numpy as np
 import warnings
-from copy import copy
+from copy import deepcopy
 from scipy.integrate import simpson
 from scipy.interpolate import interp1d
 from scipy.ndimage import gaussian_filter1d
@@ -246,7 +246,7 @@ class Spectra(HaloModelIngredients):
 
         :type: array_like
         """
-        return val
+        return deepcopy(val)
 
     @parameter('switch')
     def dewiggle(self, val):
@@ -264,7 +264,7 @@ class Spectra(HaloModelIngredients):
 
         :type: ndarray
         """
-        return val
+        return deepcopy(val)
 
     @parameter('switch')
     def matter_power_nl(self, val):
@@ -273,7 +273,7 @@ class Spectra(HaloModelIngredients):
 
         :type: ndarray
         """
-        return val
+        return deepcopy(val)
 
     @parameter('switch')
     def response(self, val):
@@ -309,7 +309,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('switch')
     def pointmass(self, val):
@@ -336,7 +336,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def hod_params(self, val):
@@ -345,7 +345,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def hod_settings(self, val):
@@ -354,7 +354,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def obs_settings(self, val):
@@ -363,7 +363,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('param')
     def t_eff(self, val):
@@ -399,7 +399,7 @@ class Spectra(HaloModelIngredients):
 
         :type: dict
         """
-        return copy(val)
+        return deepcopy(val)
 
     @parameter('switch')
     def hod_model(self, val):
-- 
2.43.0

