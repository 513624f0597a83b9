From aa0d192b140cd3ee3dd02d13e417cc2712174227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 01/82] fix: do not change the shape of the caller's array in
 skew/symm/vectorOfSkewMatrix

---
 hexrd/core/matrixutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/matrixutil.py b/hexrd/core/matrixutil.py
index b64cd89..472c487 100644
--- a/hexrd/core/matrixutil.py
+++ b/hexrd/core/matrixutil.py
@@ -294,7 +294,7 @@ def skew(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -320,7 +320,7 @@ def symm(A):
             raise RuntimeError(
                 "this function only works for square arrays; yours is (%d, %d)" % (m, n)
             )
-        A.resize(1, m, n)
+        A = A.reshape(1, m, n)
     elif A.ndim == 3:
         m = A.shape[1]
         n = A.shape[2]
@@ -379,7 +379,7 @@ def vectorOfSkewMatrix(W):
         if W.shape[0] != 3 or W.shape[0] != 3:
             raise RuntimeError('input is not (3, 3)')
         stackdim = 1
-        W.resize(1, 3, 3)
+        W = W.reshape(1, 3, 3)
     elif W.ndim == 3:
         if W.shape[1] != 3 or W.shape[2] != 3:
             raise RuntimeError('input is not (3, 3)')
-- 
2.43.0


From 7ef2ee82556fe44b19bb5a99a5cf048b31e98e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 02/82] fix: misorientation no longer extends a symmetry list
 passed by the caller

---
 hexrd/core/rotations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/rotations.py b/hexrd/core/rotations.py
index 33d0ba2..6a79b8f 100644
--- a/hexrd/core/rotations.py
+++ b/hexrd/core/rotations.py
@@ -193,7 +193,7 @@ def misorientation(q1, q2, symmetries=None):
                 raise RuntimeError("symmetry argument is not an numpy array")
             else:
                 # add triclinic sample symmetry (identity)
-                symmetries += (np.c_[1.0, 0, 0, 0].T,)
+                symmetries = (symmetries[0], np.c_[1.0, 0, 0, 0].T)
         elif len(symmetries) == 2:
             if not isinstance(symmetries[0], np.ndarray) or not isinstance(
                 symmetries[1], np.ndarray
-- 
2.43.0


From 5cf4a6160436a2823b0ec84b4dc86c0c72b2cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 03/82] fix: getFriedelPair broadcasts a single angle without
 writing into the caller's array

---
 hexrd/core/material/crystallography.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 435d342..c8ea463 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -1971,10 +1971,10 @@ def getFriedelPair(tth0, eta0, *ome0, **kwargs):
     else:
         if len(tth0) != npts:
             if len(tth0) == 1:
-                tth0 *= np.ones(npts)
+                tth0 = tth0 * np.ones(npts)
             elif npts == 1:
                 npts = len(tth0)
-                eta0 *= np.ones(npts)
+                eta0 = eta0 * np.ones(npts)
             else:
                 raise RuntimeError(
                     'the azimuthal and Bragg angle inputs are inconsistent'
-- 
2.43.0


From d0b00c1ca7cccfd203ed0140834dd83412b40ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 04/82] fix: zproject_sph_angles no longer inverts z in the
 caller's vectors

---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 77c9c45..11bb159 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -200,7 +200,7 @@ def zproject_sph_angles(
         spts_s = np.dot(spts_s, rmat.T)
 
     if invert_z:
-        spts_s[:, 2] = -spts_s[:, 2]
+        spts_s = spts_s * np.r_[1.0, 1.0, -1.0]
 
     # filter based on hemisphere
     if use_mask:
-- 
2.43.0


From 06990a0eab4a8fe1cc6754825f80594c3e8123f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 05/82] fix: hsl2rgb works on a copy of the caller's array

---
 hexrd/hedm/ipfcolor/colorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/ipfcolor/colorspace.py b/hexrd/hedm/ipfcolor/colorspace.py
index 6aaf27c..46263c9 100644
--- a/hexrd/hedm/ipfcolor/colorspace.py
+++ b/hexrd/hedm/ipfcolor/colorspace.py
@@ -45,7 +45,7 @@ def hsl2rgb(hsl):
     it is assumed that the hsl array has values in [0,1] for the 
     different components
     '''
-    hsl = np.atleast_2d(hsl)
+    hsl = np.array(hsl, ndmin=2)
     hsl[np.abs(hsl) < eps] = 0.0
     hsl[np.abs(hsl - np.ones(hsl.shape)) < eps] = 1.0
 
-- 
2.43.0


From fd7ff566e7bd589f08454711a66fff89386cfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 06/82] fix: unwrap_dict_to_h5 no longer empties the dictionary
 it writes

---
 hexrd/core/utils/hdf5.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 99e934c..43171ab 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -22,8 +22,7 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
     None.
 
     """
-    while len(d) > 0:
-        key, item = d.popitem()
+    for key, item in d.items():
         if isinstance(item, dict):
             subgrp = grp.create_group(key)
             unwrap_dict_to_h5(subgrp, item, asattr=asattr)
-- 
2.43.0


From 27da2eff19737f85c3151099b66fb963e4b4196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 07/82] fix: HarmonicModel normalizes a copy of the pole figure
 data it is given

---
 hexrd/powder/wppf/texture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 34b8e47..126b8d1 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1812,6 +1812,7 @@ class HarmonicModel:
             return
 
         for ii, (k, v) in enumerate(val.items()):
+            v = np.array(v)
             norm = np.linalg.norm(v[:, 0:3], axis=1)
             v[:, 0:3] = v[:, 0:3] / np.tile(norm, [3, 1]).T
 
-- 
2.43.0


From a96cbcb08db2bb3cb209e1c4d48f0ed3a30bd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:26 +0000
Subject: [PATCH 08/82] fix: Spectrum.nan_to_zero no longer overwrites the
 array the spectrum was built from

---
 hexrd/powder/wppf/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/spectrum.py b/hexrd/powder/wppf/spectrum.py
index fab744b..e77e371 100644
--- a/hexrd/powder/wppf/spectrum.py
+++ b/hexrd/powder/wppf/spectrum.py
@@ -260,7 +260,7 @@ class Spectrum:
         sometimes integrated spectrum in data can
         have some nans, so need to catch those
         """
-        self._y = np.nan_to_num(self._y, copy=False, nan=0.0)
+        self._y = np.nan_to_num(self._y, nan=0.0)
 
     # Operators:
     def __sub__(self, other):
-- 
2.43.0


From 50f27654fd9b07b979ea7fca5f917afe772cdd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 09/82] fix: average_iter yields a copy of its accumulator

---
 hexrd/core/imageseries/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/stats.py b/hexrd/core/imageseries/stats.py
index 433bfb4..8e57048 100644
--- a/hexrd/core/imageseries/stats.py
+++ b/hexrd/core/imageseries/stats.py
@@ -164,7 +164,7 @@ def average_iter(
     if stop == 0:
         if nf > 1:
             s0, stop = 1, stops[1]
-        yield img
+        yield img.copy()
 
     for i in range(1, nf):
         img += ims[i]
-- 
2.43.0


From 68eb4043d0c064752a56cf2480ae7e830cf6c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 10/82] fix: grain fitting no longer overwrites the caller's
 grain parameters

---
 hexrd/hedm/fitting/grains.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/hedm/fitting/grains.py b/hexrd/hedm/fitting/grains.py
index 61c7b8b..9a0d8e3 100644
--- a/hexrd/hedm/fitting/grains.py
+++ b/hexrd/hedm/fitting/grains.py
@@ -87,6 +87,8 @@ def fitGrain(
         # xyo_det[:, 2] = rotations.mapAngle(xyo_det[:, 2], omePeriod)
         raise RuntimeError
 
+    # work on a copy: the caller keeps its parameters
+    gFull = np.array(gFull)
     gFit = gFull[gFlag]
 
     # objFuncFitGrain can run *significantly* faster if we convert the
@@ -216,6 +218,7 @@ def objFuncFitGrain(
     energy_correction = instrument.energy_correction
 
     # fill out parameters
+    gFull = np.array(gFull)
     gFull[gFlag] = gFit
 
     # map parameters to functional arrays
-- 
2.43.0


From 353f6575a7d46ef1a7ea1e5ca3613cccc83af05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 11/82] fix: Rietveld converts wavelengths in its own
 dictionary, not the caller's

---
 hexrd/powder/wppf/WPPF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index 886dfc2..cba259b 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1624,9 +1624,10 @@ class Rietveld(AbstractWPPF):
         self._tstart = time.time()
 
         if wavelength is not None:
-            self.wavelength = wavelength
-            for k, v in self.wavelength.items():
-                v[0] = valWUnit("lp", "length", v[0].getVal("nm"), "nm")
+            self.wavelength = {
+                k: [valWUnit("lp", "length", v[0].getVal("nm"), "nm"), *v[1:]]
+                for k, v in wavelength.items()
+            }
 
         self.phases = phases
         self.texture_model = texture_model
-- 
2.43.0


From af19e26d38f8d1f94e69c37be2b956c3da77eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:36 +0000
Subject: [PATCH 12/82] fix: Rietveld.texture_model no longer adds entries to
 the caller's dictionary

---
 hexrd/powder/wppf/WPPF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index cba259b..e90ab8e 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -2430,7 +2430,7 @@ class Rietveld(AbstractWPPF):
             )
             raise ValueError(msg)
 
-        self._texture_model = valdict
+        self._texture_model = dict(valdict)
         for phase_name in self.phases:
             if phase_name not in valdict:
                 self._texture_model[phase_name] = None
-- 
2.43.0


From 1b7a76b6ab0757ef8039a2f0ac8f8c58f8cb44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:33 +0000
Subject: [PATCH 13/82] fix: Rietveld phases refine their own copy of the atom
 positions and U of a material

---
 hexrd/powder/wppf/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 96a0bcd..8f06d3b 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -567,10 +567,10 @@ class Material_Rietveld(Material_LeBail):
         self.wavelength = material_obj.unitcell.wavelength
 
         # asymmetric atomic positions
-        self.atom_pos = material_obj.unitcell.atom_pos
+        self.atom_pos = np.array(material_obj.unitcell.atom_pos)
 
         # Debye-Waller factors including anisotropic ones
-        self.U = material_obj.unitcell.U
+        self.U = np.array(material_obj.unitcell.U)
         self.aniU = False
         if self.U.ndim > 1:
             self.aniU = True
-- 
2.43.0


From cc7d22dbfb2099f0abb4b3957a706d9796bd9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:33 +0000
Subject: [PATCH 14/82] fix: Rietveld recomputes structure factors when any
 atom varies, not only the last one

---
 hexrd/powder/wppf/WPPF.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index e90ab8e..c46a946 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -1741,9 +1741,8 @@ class Rietveld(AbstractWPPF):
                     else:
                         dw = f"{p}_{elem}{atom_label[i]}_dw"
 
-                    atominfo_vary = force or any(
-                        params[name].vary for name in (nx, ny, nz, oc)
-                    )
+                    if any(params[name].vary for name in (nx, ny, nz, oc)):
+                        atominfo_vary = True
                     x = params[nx].value
                     y = params[ny].value
                     z = params[nz].value
-- 
2.43.0


From 92ff58d8606f80674486dff2a810bd35259d72b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 15/82] fix: hexrd.{hed,laue,powder}.instrument can be imported
 again

---
 hexrd/hed/instrument/__init__.py    | 4 ++--
 hexrd/laue/instrument/__init__.py   | 2 +-
 hexrd/powder/instrument/__init__.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hexrd/hed/instrument/__init__.py b/hexrd/hed/instrument/__init__.py
index 396a0d0..8f899e7 100644
--- a/hexrd/hed/instrument/__init__.py
+++ b/hexrd/hed/instrument/__init__.py
@@ -1,8 +1,7 @@
-from .hedm_instrument import (
+from hexrd.core.instrument.hedm_instrument import (
     calc_angles_from_beam_vec,
     calc_beam_vec,
     centers_of_edge_vec,
-    GenerateEtaOmeMaps,
     GrainDataWriter,
     HEDMInstrument,
     max_tth,
@@ -11,3 +10,4 @@ from .hedm_instrument import (
     unwrap_h5_to_dict,
 )
 from hexrd.core.instrument.detector import Detector
+from hexrd.hedm.instrument.generate_eta_omega_maps import GenerateEtaOmeMaps
diff --git a/hexrd/laue/instrument/__init__.py b/hexrd/laue/instrument/__init__.py
index 0240030..8f899e7 100644
--- a/hexrd/laue/instrument/__init__.py
+++ b/hexrd/laue/instrument/__init__.py
@@ -2,7 +2,6 @@ from hexrd.core.instrument.hedm_instrument import (
     calc_angles_from_beam_vec,
     calc_beam_vec,
     centers_of_edge_vec,
-    GenerateEtaOmeMaps,
     GrainDataWriter,
     HEDMInstrument,
     max_tth,
@@ -11,3 +10,4 @@ from hexrd.core.instrument.hedm_instrument import (
     unwrap_h5_to_dict,
 )
 from hexrd.core.instrument.detector import Detector
+from hexrd.hedm.instrument.generate_eta_omega_maps import GenerateEtaOmeMaps
diff --git a/hexrd/powder/instrument/__init__.py b/hexrd/powder/instrument/__init__.py
index 396a0d0..8f899e7 100644
--- a/hexrd/powder/instrument/__init__.py
+++ b/hexrd/powder/instrument/__init__.py
@@ -1,8 +1,7 @@
-from .hedm_instrument import (
+from hexrd.core.instrument.hedm_instrument import (
     calc_angles_from_beam_vec,
     calc_beam_vec,
     centers_of_edge_vec,
-    GenerateEtaOmeMaps,
     GrainDataWriter,
     HEDMInstrument,
     max_tth,
@@ -11,3 +10,4 @@ from .hedm_instrument import (
     unwrap_h5_to_dict,
 )
 from hexrd.core.instrument.detector import Detector
+from hexrd.hedm.instrument.generate_eta_omega_maps import GenerateEtaOmeMaps
-- 
2.43.0


From 8804d0b28ecff162dfd72e9dad78d4fcb57d7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 16/82] fix: CylindricalDetector finds the cylinder projection
 helpers it calls

---
 hexrd/core/instrument/cylindrical_detector.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index fa9c2f3..dfc163e 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -6,7 +6,13 @@ from hexrd.core import constants as ct
 
 # TODO: Resolve extra-core dependency
 from hexrd.hedm import xrdutil
-from hexrd.hed.xrdutil.utils import _warp_to_cylinder
+from hexrd.hed.xrdutil.utils import (
+    _clip_to_cylindrical_detector,
+    _dewarp_from_cylinder,
+    _project_on_detector_cylinder,
+    _unitvec_to_cylinder,
+    _warp_to_cylinder,
+)
 from hexrd.core.utils.decorators import memoize
 
 from .detector import Detector
@@ -112,7 +118,7 @@ class CylindricalDetector(Detector):
             self.distortion,
         )
 
-        proj_func = xrdutil.utils._project_on_detector_cylinder
+        proj_func = _project_on_detector_cylinder
         valid_xy, rMat_ss, valid_mask = proj_func(*args, **kwargs)
         xy_det = np.empty([angs.shape[0], 2])
         xy_det.fill(np.nan)
@@ -297,7 +303,7 @@ class CylindricalDetector(Detector):
             self.radius,
             self.tvec,
         )
-        pt_on_cylinder = xrdutil.utils._unitvec_to_cylinder(*args)
+        pt_on_cylinder = _unitvec_to_cylinder(*args)
 
         args = (
             pt_on_cylinder,
@@ -308,10 +314,10 @@ class CylindricalDetector(Detector):
             self.physical_size,
             self.angle_extent,
         )
-        pt_on_cylinder, _ = xrdutil.utils._clip_to_cylindrical_detector(*args)
+        pt_on_cylinder, _ = _clip_to_cylindrical_detector(*args)
 
         args = (pt_on_cylinder, self.tvec, self.caxis, self.paxis, self.radius)
-        output = xrdutil.utils._dewarp_from_cylinder(*args)
+        output = _dewarp_from_cylinder(*args)
         return output
 
     @property
-- 
2.43.0


From 8e911664b145ac804712d0439def002a82595b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 17/82] fix: Beam configuration section can be constructed

---
 hexrd/core/config/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/config/beam.py b/hexrd/core/config/beam.py
index 572b25b..afcf1da 100644
--- a/hexrd/core/config/beam.py
+++ b/hexrd/core/config/beam.py
@@ -11,5 +11,5 @@ class Beam(Config):
     BASEKEY = 'beam'
 
     def __init__(self, cfg):
-        super(ImageSeries, self).__init__(cfg)
+        super(Beam, self).__init__(cfg)
         self._image_dict = None
-- 
2.43.0


From 02a739ee921812b54766c0395d28ee34096a7761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 18/82] fix: tth_corr_map_pinhole uses the beam vector of the
 instrument copy

---
 hexrd/hed/xrdutil/phutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hed/xrdutil/phutil.py b/hexrd/hed/xrdutil/phutil.py
index e50b8ea..21bc063 100644
--- a/hexrd/hed/xrdutil/phutil.py
+++ b/hexrd/hed/xrdutil/phutil.py
@@ -399,7 +399,7 @@ def tth_corr_map_pinhole(instrument, pinhole_thickness, pinhole_radius):
     The follows a slightly modified version of Jon Eggert's pinhole correction.
     """
     cp_instr = copy.deepcopy(instrument)
-    cp_instr.beam_vector = np.sign(cp_det.bvec[2]) * ct.beam_vec  # !!! [0, 0, -1]
+    cp_instr.beam_vector = np.sign(cp_instr.beam_vector[2]) * ct.beam_vec  # !!! [0, 0, -1]
 
     tth_corr = dict.fromkeys(instrument.detectors)
     for det_key, panel in instrument.detectors.items():
-- 
2.43.0


From 70bf811369a37348fef23e0d8c2ce8088ba5d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 19/82] fix: direct_pk_analysis works without background
 removal

---
 hexrd/core/fitting/fitpeak.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/fitting/fitpeak.py b/hexrd/core/fitting/fitpeak.py
index 263ff03..bbc016d 100644
--- a/hexrd/core/fitting/fitpeak.py
+++ b/hexrd/core/fitting/fitpeak.py
@@ -969,7 +969,8 @@ def direct_pk_analysis(x, f, remove_bg=True, low_int=1.0, edge_pts=3, pts_per_me
 
         f = f - np.min(f)  # set the minimum to 0
 
-    plt.plot(bg_pts, bg_data, 'x')
+    if remove_bg:
+        plt.plot(bg_pts, bg_data, 'x')
     plt.plot(x, f, 'r')
 
     # make a fine grid of points
-- 
2.43.0


From fb37727e93fa7d257699f1cc38d24459c8c1f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:24 +0000
Subject: [PATCH 20/82] fix: space group is looked up by the Hall symbol read
 from a CIF file

---
 hexrd/core/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 8dda950..2de8fd3 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -609,7 +609,7 @@ class Material(object):
         elif skey is sgkey[2]:
             hall = cifdata[sgkey[2]]
             hall = hall.replace(" ", "")
-            sgnum = Hall_to_sgnum[HM]
+            sgnum = Hall_to_sgnum[hall]
         elif skey is sgkey[3]:
             sgnum = int(cifdata[sgkey[3]])
 
-- 
2.43.0


From 01534cbc76fc6bfc9e574afd7219f5b2e0188622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 21/82] fix: fit-grains raises RuntimeError instead of a tuple

---
 hexrd/hedm/cli/fit_grains.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/hexrd/hedm/cli/fit_grains.py b/hexrd/hedm/cli/fit_grains.py
index 42ff5d7..2b23ad3 100644
--- a/hexrd/hedm/cli/fit_grains.py
+++ b/hexrd/hedm/cli/fit_grains.py
@@ -255,9 +255,8 @@ def execute(args, parser):
             try:
                 qbar = np.loadtxt(quats_f, ndmin=2).T
             except IOError:
-                raise (
-                    RuntimeError,
-                    "error loading indexing results '%s'" % quats_f,
+                raise RuntimeError(
+                    "error loading indexing results '%s'" % quats_f
                 )
         else:
             logger.info("Missing %s, running find-orientations", quats_f)
@@ -363,18 +362,16 @@ def execute(args, parser):
                     gw.dump_grain(int(i_g), 1.0, 0.0, grain_params)
                 gw.close()
             except IOError:
-                raise (
-                    RuntimeError,
-                    "indexing results '%s' not found!" % str(grains_filename),
+                raise RuntimeError(
+                    "indexing results '%s' not found!" % str(grains_filename)
                 )
         elif force_with_estimate or new_with_estimate:
             grains_filename = fit_estimate
             logger.info("using initial estimate '%s'", fit_estimate)
         elif existing_analysis and not clobber:
-            raise (
-                RuntimeError,
+            raise RuntimeError(
                 "fit results '%s' exist, " % grains_filename
-                + "but --clean or --force options not specified",
+                + "but --clean or --force options not specified"
             )
 
         # get grain parameters by loading grains table
-- 
2.43.0


From e31957c93b64b49760ac5f05e3a26a999277881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 22/82] fix: determine_valid_reflections is told which grain
 the overlap tables refer to

---
 hexrd/hedm/fitgrains.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 4904cea..0d53931 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -129,7 +129,7 @@ def fit_grain_FF_reduced(grain_id):
         )
 
         culled_results, num_refl_valid, completeness = determine_valid_reflections(
-            results, instrument, analysis_dirname
+            results, instrument, analysis_dirname, grain_id
         )
 
         # ======= DO LEASTSQ FIT =======
@@ -215,7 +215,9 @@ def fit_grain_FF_reduced(grain_id):
     return result
 
 
-def determine_valid_reflections(results, instrument, analysis_dirname):
+def determine_valid_reflections(
+    results, instrument, analysis_dirname, grain_id=None
+):
     """Process results from `pull_spots()`
 
     PARAMETERS
@@ -226,6 +228,8 @@ def determine_valid_reflections(results, instrument, analysis_dirname):
        the HEDM instrument
     analysis_dirname: str or Path
        the analysis output directory
+    grain_id: int, optional
+       the grain whose entries in the overlap tables are to be excluded
 
     RETURNS
     -------
-- 
2.43.0


From b86b0fe6f7dbd842ae6bde52a92c8686e68eeacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 23/82] fix: InversePoleFigures.sampling can be read back

---
 hexrd/powder/wppf/texture.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index 126b8d1..cf1ddad 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1980,6 +1980,7 @@ class InversePoleFigures:
 
     @sampling.setter
     def sampling(self, val):
+        self._sampling = val
         if val.lower() == "equiangular":
             self.initialize_crystal_dir("equiangular", resolution=self.resolution)
 
-- 
2.43.0


From 61844bb17491f0d5ea6a71b289b270bb9323a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 24/82] fix: WPPF accepts an experimental spectrum given as a
 Spectrum

---
 hexrd/powder/wppf/WPPF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index c46a946..66bbbcc 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -346,10 +346,10 @@ class AbstractWPPF(ABC):
                 """
                 self._spectrum_expt = [expt_spectrum]
                 # self._spectrum_expt.nan_to_zero()
-                self.global_index = [(0, expt_spectrum.shape[0])]
+                self.global_index = [(0, expt_spectrum._x.shape[0])]
                 self.global_mask = np.zeros(
                     [
-                        expt_spectrum.shape[0],
+                        expt_spectrum._x.shape[0],
                     ],
                     dtype=bool,
                 )
-- 
2.43.0


From 1a2796663d536f641767a91f55c76105b3e77cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 25/82] fix: Material.spaceGroup returns the space group of the
 material

---
 hexrd/core/material/material.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 2de8fd3..1905956 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -1147,7 +1147,9 @@ class Material(object):
     @property
     def spaceGroup(self):
         """(read only) Space group"""
-        return self._spaceGroup
+        from hexrd.core.material.spacegroup import SpaceGroup
+
+        return SpaceGroup(self.sgnum)
 
     @property
     def vol(self):
-- 
2.43.0


From bfd2fcb9f567f3ee4d2183850e84b5115cad3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 26/82] fix: simulate_powder_pattern rejects an unknown noise
 type

---
 hexrd/core/instrument/hedm_instrument.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7ee65be..cc106d9 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1542,6 +1542,9 @@ class HEDMInstrument(object):
                 elif noise.lower() == 'speckle':
                     im_noise = random_noise(img, mode='speckle', clip=True)
 
+                else:
+                    raise ValueError(f'Unknown noise type: {noise}')
+
                 # Now scale back up
                 img_dict[det_key] = im_noise * prev_max
 
-- 
2.43.0


From 8b5a817002afda0e4ff87ecf917262537c144980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 27/82] fix: a 3-d array of images is cut to the roi frame by
 frame

---
 hexrd/core/instrument/hedm_instrument.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index cc106d9..fec2359 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -329,8 +329,8 @@ def _parse_imgser_dict(
                 ncols = roi[1][1] - roi[1][0]
                 n_images = len(images_in)
                 ims = np.empty((n_images, nrows, ncols), dtype=images_in.dtype)
-                for i, image in images_in:  # TODO: Is this meant to be an enumerate?
-                    ims[i, :, :] = images_in[
+                for i, image in enumerate(images_in):
+                    ims[i, :, :] = image[
                         roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]
                     ]
             else:
-- 
2.43.0


From eb1691715c988a9898da51abf674be6680f4cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 28/82] fix: absorption lengths accept an integer energy
 (physics_package.py)

---
 hexrd/core/instrument/physics_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/physics_package.py b/hexrd/core/instrument/physics_package.py
index f017498..039a478 100644
--- a/hexrd/core/instrument/physics_package.py
+++ b/hexrd/core/instrument/physics_package.py
@@ -145,7 +145,7 @@ class HEDPhysicsPackage(AbstractPhysicsPackage):
         self.pinhole_diameter = 2.0 * value
 
     def absorption_length(self, energy, layer):
-        if isinstance(energy, float):
+        if isinstance(energy, (int, float)):
             energy_inp = np.array([energy])
         elif isinstance(energy, list):
             energy_inp = np.array(energy)
-- 
2.43.0


From eb611f3eaad17111d622e8cd7d2ce7967f6765df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 29/82] fix: absorption lengths accept an integer energy
 (detector_coatings.py)

---
 hexrd/core/instrument/detector_coatings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/detector_coatings.py b/hexrd/core/instrument/detector_coatings.py
index d3883c1..59ba894 100644
--- a/hexrd/core/instrument/detector_coatings.py
+++ b/hexrd/core/instrument/detector_coatings.py
@@ -90,7 +90,7 @@ class AbstractLayer:
         self._formula = value
 
     def absorption_length(self, energy):
-        if isinstance(energy, float):
+        if isinstance(energy, (int, float)):
             energy_inp = np.array([energy])
         elif isinstance(energy, list):
             energy_inp = np.array(energy)
@@ -112,7 +112,7 @@ class AbstractLayer:
             return abs_length
 
     def energy_absorption_length(self, energy):
-        if isinstance(energy, float):
+        if isinstance(energy, (int, float)):
             energy_inp = np.array([energy])
         elif isinstance(energy, list):
             energy_inp = np.array(energy)
-- 
2.43.0


From caf096608dd923fb8199524eeacb124911182603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 30/82] fix: LeBailCalibrator.pixel_size rebuilds the polar
 view of its instrument

---
 hexrd/powder/wppf/LeBailCalibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/LeBailCalibration.py b/hexrd/powder/wppf/LeBailCalibration.py
index cc6236d..5b9852b 100644
--- a/hexrd/powder/wppf/LeBailCalibration.py
+++ b/hexrd/powder/wppf/LeBailCalibration.py
@@ -538,7 +538,7 @@ class LeBailCalibrator:
             if hasattr(self, "extent"):
                 self.pv = PolarView(
                     self.extent[0:2],
-                    ins,
+                    self.instrument,
                     eta_min=self.extent[2],
                     eta_max=self.extent[3],
                     pixel_size=px_sz,
-- 
2.43.0


From 1f092d3bcd2cedd5fc0c51f5fcecdcdc17214b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 31/82] fix: LeBailCalibrator loads phases and parameters from
 a file

---
 hexrd/powder/wppf/LeBailCalibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hexrd/powder/wppf/LeBailCalibration.py b/hexrd/powder/wppf/LeBailCalibration.py
index 5b9852b..a43a4d7 100644
--- a/hexrd/powder/wppf/LeBailCalibration.py
+++ b/hexrd/powder/wppf/LeBailCalibration.py
@@ -1,5 +1,6 @@
 import importlib.resources
 import logging
+import os
 import numpy as np
 from numpy.polynomial.chebyshev import Chebyshev
 import lmfit
@@ -721,10 +722,10 @@ class LeBailCalibrator:
                     """
                     load from a yaml file
                     """
-                    if path.exists(phase_info):
+                    if os.path.exists(phase_info):
                         p.load(phase_info)
                     else:
-                        raise FileError('phase file doesn\'t exist.')
+                        raise FileNotFoundError('phase file doesn\'t exist.')
 
                 elif isinstance(phase_info, Material):
                     p[phase_info.name] = Material_LeBail(
@@ -809,10 +810,10 @@ class LeBailCalibrator:
                     """
                     load from a yaml file
                     """
-                    if path.exists(param_info):
+                    if os.path.exists(param_info):
                         params.load(param_info)
                     else:
-                        raise FileError('input spectrum file doesn\'t exist.')
+                        raise FileNotFoundError('input spectrum file doesn\'t exist.')
 
                 """
                 this part initializes the lattice parameters in the
-- 
2.43.0


From c5216edc03e2c1f680bfe23ae57e307ea5206d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:56 +0000
Subject: [PATCH 32/82] fix: LeBailCalibrator passes the background method to
 the default parameters

---
 hexrd/powder/wppf/LeBailCalibration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hexrd/powder/wppf/LeBailCalibration.py b/hexrd/powder/wppf/LeBailCalibration.py
index a43a4d7..9a08683 100644
--- a/hexrd/powder/wppf/LeBailCalibration.py
+++ b/hexrd/powder/wppf/LeBailCalibration.py
@@ -669,8 +669,8 @@ class LeBailCalibrator:
         update parameters
         """
         if hasattr(self, 'params'):
-            params = wppfsupport._generate_default_parameters_Rietveld(
-                self.phases, self.peakshape
+            params = wppfsupport._generate_default_parameters_LeBail(
+                self.phases, self.peakshape, self.bkgmethod
             )
             for p in params:
                 if p in self.params:
@@ -780,7 +780,7 @@ class LeBailCalibrator:
 
         if param_info is not None:
             pl = wppfsupport._generate_default_parameters_LeBail(
-                self.phases, self.peakshape
+                self.phases, self.peakshape, self.bkgmethod
             )
             self.lebail_param_list = [p for p in pl]
             if isinstance(param_info, lmfit.Parameters):
@@ -825,7 +825,7 @@ class LeBailCalibrator:
         else:
 
             params = wppfsupport._generate_default_parameters_LeBail(
-                self.phases, self.peakshape
+                self.phases, self.peakshape, self.bkgmethod
             )
             self.lebail_param_list = [p for p in params]
             wppfsupport._add_detector_geometry(params, self.instrument)
-- 
2.43.0


From 214c8e877a8feb3b70a2045090a56c236ab5a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 33/82] fix: frame-cache writer can write its YAML file

---
 hexrd/core/imageseries/save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index aa65d59..0efbe2b 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -310,7 +310,7 @@ class WriteFrameCache(Writer):
 
     def _write_yml(self):
         datad = {
-            'file': self._cachename,
+            'file': str(self.cachename),
             'dtype': str(self._ims.dtype),
             'nframes': len(self._ims),
             'shape': list(self._ims.shape),
-- 
2.43.0


From 722b1261a6d1a1d16e1d96360e9c964ddd60e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:54 +0000
Subject: [PATCH 34/82] fix: CylindricalDetector finds the cylinder projection
 helpers where it looks them up

---
 hexrd/core/instrument/cylindrical_detector.py | 16 +++++-----------
 hexrd/hedm/xrdutil/utils.py                   |  8 +++++++-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/hexrd/core/instrument/cylindrical_detector.py b/hexrd/core/instrument/cylindrical_detector.py
index dfc163e..fa9c2f3 100644
--- a/hexrd/core/instrument/cylindrical_detector.py
+++ b/hexrd/core/instrument/cylindrical_detector.py
@@ -6,13 +6,7 @@ from hexrd.core import constants as ct
 
 # TODO: Resolve extra-core dependency
 from hexrd.hedm import xrdutil
-from hexrd.hed.xrdutil.utils import (
-    _clip_to_cylindrical_detector,
-    _dewarp_from_cylinder,
-    _project_on_detector_cylinder,
-    _unitvec_to_cylinder,
-    _warp_to_cylinder,
-)
+from hexrd.hed.xrdutil.utils import _warp_to_cylinder
 from hexrd.core.utils.decorators import memoize
 
 from .detector import Detector
@@ -118,7 +112,7 @@ class CylindricalDetector(Detector):
             self.distortion,
         )
 
-        proj_func = _project_on_detector_cylinder
+        proj_func = xrdutil.utils._project_on_detector_cylinder
         valid_xy, rMat_ss, valid_mask = proj_func(*args, **kwargs)
         xy_det = np.empty([angs.shape[0], 2])
         xy_det.fill(np.nan)
@@ -303,7 +297,7 @@ class CylindricalDetector(Detector):
             self.radius,
             self.tvec,
         )
-        pt_on_cylinder = _unitvec_to_cylinder(*args)
+        pt_on_cylinder = xrdutil.utils._unitvec_to_cylinder(*args)
 
         args = (
             pt_on_cylinder,
@@ -314,10 +308,10 @@ class CylindricalDetector(Detector):
             self.physical_size,
             self.angle_extent,
         )
-        pt_on_cylinder, _ = _clip_to_cylindrical_detector(*args)
+        pt_on_cylinder, _ = xrdutil.utils._clip_to_cylindrical_detector(*args)
 
         args = (pt_on_cylinder, self.tvec, self.caxis, self.paxis, self.radius)
-        output = _dewarp_from_cylinder(*args)
+        output = xrdutil.utils._dewarp_from_cylinder(*args)
         return output
 
     @property
diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 11bb159..e32cdb5 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -40,7 +40,13 @@ from hexrd.core import matrixutil as mutil
 from hexrd.core import rotations as rot
 from hexrd.core import gridutil as gutil
 
-from hexrd.hed.xrdutil.utils import _project_on_detector_plane
+from hexrd.hed.xrdutil.utils import (
+    _clip_to_cylindrical_detector,
+    _dewarp_from_cylinder,
+    _project_on_detector_cylinder,
+    _project_on_detector_plane,
+    _unitvec_to_cylinder,
+)
 from hexrd.core.material.crystallography import processWavelength, PlaneData
 
 from hexrd.core.transforms import xfcapi
-- 
2.43.0


From b240798a317ef396d0488bde1888453974c048f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 35/82] fix: PlaneData discards structure factors and
 intensities when its lattice or wavelength changes

---
 hexrd/core/material/crystallography.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index c8ea463..71fa7f3 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -819,6 +819,9 @@ class PlaneData(object):
             self.hklDataList = hklDataList
         self._latVecOps = latVecOps
         self.nHKLs = len(self.getHKLs())
+        if self._unitcell is not None:
+            # the order of the hkls and their two-theta may have changed
+            self.invalidate_structure_factor(self._unitcell)
 
     def __str__(self):
         s = '========== plane data ==========\n'
-- 
2.43.0


From 694c2bc5eeb9f3590fda0d6569e3d553a90b205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:17 +0000
Subject: [PATCH 36/82] fix: MaterialConfig takes the plane data from the
 materials it is given

---
 hexrd/core/config/material.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/config/material.py b/hexrd/core/config/material.py
index b8954de..36e02f8 100644
--- a/hexrd/core/config/material.py
+++ b/hexrd/core/config/material.py
@@ -57,6 +57,9 @@ class MaterialConfig(Config):
     def materials(self, mats):
         assert isinstance(mats, dict), "input must be a dict"
         self._materials = mats
+        # plane data of the active material comes from the new materials
+        if hasattr(self, '_plane_data'):
+            del self._plane_data
 
     @property
     def dmin(self):
-- 
2.43.0


From b5dae2e994082f6afb3d3a3090d6f5c9f438ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:25 +0000
Subject: [PATCH 37/82] fix: unit cell absorption length follows the lattice
 parameters and the wavelength

---
 hexrd/core/material/unitcell.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 419bec2..3410343 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -131,10 +131,9 @@ class unitcell:
 
     def CalcWavelength(self):
         # wavelength in nm
-        self.wavelength = (
+        self.wavelength = 1e9 * (
             constants.cPlanck * constants.cLight / constants.cCharge / self.voltage
         )
-        self.wavelength *= 1e9
 
     def calcBetaij(self):
         self.betaij = np.zeros([3, 3, self.atom_ntype])
@@ -1452,6 +1451,7 @@ class unitcell:
         self.CalcMaxGIndex()
         if hasattr(self, "numat"):
             self.CalcDensity()
+            self.calc_absorption_length()
 
     @property
     def lparms_reduced(self):
@@ -1583,6 +1583,9 @@ class unitcell:
     @wavelength.setter
     def wavelength(self, mlambda):
         self._mlambda = mlambda
+        # the absorption length depends on the wavelength
+        if hasattr(self, "absorption_length"):
+            self.calc_absorption_length()
 
     # space group number
     @property
-- 
2.43.0


From 73783a6a55ae8ca06ec28a83c76675baa92ba529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:53 +0000
Subject: [PATCH 38/82] fix: anisotropic displacement factors follow the
 lattice parameters of the unit cell

---
 hexrd/core/material/unitcell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index 3410343..ba2d640 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -1449,6 +1449,8 @@ class unitcell:
         self.calcmatrices()
         self.init_max_g_index()
         self.CalcMaxGIndex()
+        if getattr(self, "aniU", False):
+            self.calcBetaij()
         if hasattr(self, "numat"):
             self.CalcDensity()
             self.calc_absorption_length()
-- 
2.43.0


From 0f4224dac6d322bf02cc21d177b0519e8ca83736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:30 +0000
Subject: [PATCH 39/82] fix: PlaneData applies exclusions to the reflections in
 the order it holds them

---
 hexrd/core/material/crystallography.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/material/crystallography.py b/hexrd/core/material/crystallography.py
index 71fa7f3..becf32b 100644
--- a/hexrd/core/material/crystallography.py
+++ b/hexrd/core/material/crystallography.py
@@ -924,11 +924,11 @@ class PlaneData(object):
             else:
                 if len(exclusions.shape) == 1:
                     # treat exclusions as indices
-                    excl[self.tThSortInv[exclusions]] = True
+                    excl[self.tThSort[exclusions]] = True
                 elif len(exclusions.shape) == 2:
                     # treat exclusions as ranges of indices
                     for r in exclusions:
-                        excl[self.tThSortInv[r[0] : r[1]]] = True
+                        excl[self.tThSort[r[0] : r[1]]] = True
                 else:
                     raise RuntimeError(f'Unclear behavior for shape {exclusions.shape}')
         self._exclusions = excl
@@ -1329,7 +1329,7 @@ class PlaneData(object):
     def _thisHKL(self, iHKLr: int) -> bool:
         hklData = self.hklDataList[iHKLr]
         if self._exclusions is not None:
-            if self._exclusions[self.tThSortInv[iHKLr]]:
+            if self._exclusions[self.tThSort[iHKLr]]:
                 return False
         if self._tThMax is not None:
             if hklData['tTheta'] > self._tThMax or np.isnan(hklData['tTheta']):
@@ -1529,7 +1529,7 @@ class PlaneData(object):
         else:
             hklList = self.getSymHKLs()  # !!! list, reduced by exclusions
             intl_hklIDs = np.asarray([i['hklID'] for i in self.hklDataList])
-            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions[self.tThSortInv]]
+            intl_hklIDs_sorted = intl_hklIDs[~self.exclusions]
             dHKLInv = {}
             for iHKL, symHKLs in enumerate(hklList):
                 idx = intl_hklIDs_sorted[iHKL] if master else iHKL
@@ -1607,7 +1607,7 @@ class PlaneData(object):
             #     RuntimeError, and if allHKLs=True and the hkl_id is
             #     excluded, it also raises a RuntimeError
             all_hkl_ids = np.asarray([i['hklID'] for i in self.hklDataList])
-            sorted_excl = self.exclusions[self.tThSortInv]
+            sorted_excl = self.exclusions
             idx = np.zeros(len(self.hklDataList), dtype=int)
             for i, hkl_id in enumerate(hkl_ids):
                 # find ordinal index of current hklID
-- 
2.43.0


From bcb7ecde4c1694fffda726a8d4617dddda0b4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 40/82] fix: SphericalView stores the mapping and vector type
 it is given

---
 hexrd/core/projections/spherical.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hexrd/core/projections/spherical.py b/hexrd/core/projections/spherical.py
index f576404..fbb51d7 100644
--- a/hexrd/core/projections/spherical.py
+++ b/hexrd/core/projections/spherical.py
@@ -23,14 +23,8 @@ class SphericalView:
         output_dim=512,
         rmat=constants.identity_3x3,
     ):
-        self._mapping = mapping
-        self._vector_type = vector_type
-
-        # ??? maybe promote invert_z to a prop for protection?
-        if self._vector_type == 'd':
-            self.invert_z = False
-        elif self._vector_type == 'q':
-            self.invert_z = True
+        self.mapping = mapping
+        self.vector_type = vector_type
 
         self._output_dim = output_dim
         self._rmat = rmat
@@ -43,6 +37,7 @@ class SphericalView:
     def mapping(self, s):
         if s not in self.MAPPING_TYPES:
             raise RuntimeError("mapping specification '%s' is invalid" % s)
+        self._mapping = s
 
     @property
     def vector_type(self):
@@ -52,6 +47,10 @@ class SphericalView:
     def vector_type(self, s):
         if s not in self.VECTOR_TYPES:
             raise RuntimeError("vector type specification '%s' is invalid" % s)
+        self._vector_type = s
+
+        # ??? maybe promote invert_z to a prop for protection?
+        self.invert_z = s == 'q'
 
     @property
     def output_dim(self):
-- 
2.43.0


From d8ec2c702498db39af74455a646e297f53285f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:01 +0000
Subject: [PATCH 41/82] fix: mpeak_1d adds a cubic background and rejects an
 unknown one

---
 hexrd/core/fitting/peakfunctions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hexrd/core/fitting/peakfunctions.py b/hexrd/core/fitting/peakfunctions.py
index 6dee7ec..6731fb1 100644
--- a/hexrd/core/fitting/peakfunctions.py
+++ b/hexrd/core/fitting/peakfunctions.py
@@ -1249,5 +1249,10 @@ def mpeak_1d(p, x, pktype, num_pks, bgtype=None):
         f = f + p[-1]  # c0=p[-1]
     elif bgtype == 'quadratic':
         f = f + p[-3] + p[-2] * x + p[-1] * x**2  # c0=p[-3], c1=p[-2], c2=p[-1],
+    elif bgtype == 'cubic':
+        # c0=p[-4], c1=p[-3], c2=p[-2], c3=p[-1]
+        f = f + p[-4] + p[-3] * x + p[-2] * x**2 + p[-1] * x**3
+    elif bgtype is not None:
+        raise ValueError(f"background type '{bgtype}' not recognized")
 
     return f
-- 
2.43.0


From d47527149e7444173ff0ab5ff15b7c99c8d87124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 42/82] fix: InversePoleFigures rejects an unknown sampling

---
 hexrd/powder/wppf/texture.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/powder/wppf/texture.py b/hexrd/powder/wppf/texture.py
index cf1ddad..ac5da90 100644
--- a/hexrd/powder/wppf/texture.py
+++ b/hexrd/powder/wppf/texture.py
@@ -1980,6 +1980,9 @@ class InversePoleFigures:
 
     @sampling.setter
     def sampling(self, val):
+        if val.lower() not in ("equiangular", "fem"):
+            raise ValueError(f"unknown sampling: {val}")
+
         self._sampling = val
         if val.lower() == "equiangular":
             self.initialize_crystal_dir("equiangular", resolution=self.resolution)
-- 
2.43.0


From 53244a64c20776c14a169aef4cbf5886ebea8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:51 +0000
Subject: [PATCH 43/82] fix: sector.check_hemisphere uses the vertices a sector
 has

---
 hexrd/hedm/ipfcolor/sphere_sector.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hexrd/hedm/ipfcolor/sphere_sector.py b/hexrd/hedm/ipfcolor/sphere_sector.py
index 450fdfc..833e7a1 100644
--- a/hexrd/hedm/ipfcolor/sphere_sector.py
+++ b/hexrd/hedm/ipfcolor/sphere_sector.py
@@ -390,14 +390,15 @@ class sector:
 
     def check_hemisphere(self):
 
-        zcoord = np.array([self.vx[2], self.vy[2], self.vz[2]])
-        if np.logical_or(np.all(zcoord >= 0.0), np.all(zcoord <= 0.0)):
-            pass
-        else:
-            raise RuntimeError(
-                "sphere_sector: the vertices of the stereographic \
-                triangle are not in the same hemisphere"
-            )
+        for vertices in self.vertices.values():
+            zcoord = vertices[2]
+            if np.logical_or(np.all(zcoord >= 0.0), np.all(zcoord <= 0.0)):
+                pass
+            else:
+                raise RuntimeError(
+                    "sphere_sector: the vertices of the stereographic \
+                    triangle are not in the same hemisphere"
+                )
 
     def inside_sphericalpatch(self, vertex, dir3):
         '''
-- 
2.43.0


From d4a1f6db96a10ac81ac71ce857d274724cb4dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 44/82] fix: list the Eiger files of a scan in a defined order

glob returns names in directory order, which differs between file systems.
---
 hexrd/hedm/preprocess/profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/preprocess/profiles.py b/hexrd/hedm/preprocess/profiles.py
index 7ae30b5..ef7f84d 100644
--- a/hexrd/hedm/preprocess/profiles.py
+++ b/hexrd/hedm/preprocess/profiles.py
@@ -212,4 +212,5 @@ class Dexelas_Arguments(Chess_Arguments):
                 '*.h5',
             )
         )
-        return names
+        # glob does not define an order
+        return sorted(names)
-- 
2.43.0


From 88b96119ef91302eb70d79d04ce42d3254cb4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 45/82] fix: list the panel buffer names in a defined order

---
 hexrd/core/utils/panel_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/utils/panel_buffer.py b/hexrd/core/utils/panel_buffer.py
index b5f9058..4b34b14 100644
--- a/hexrd/core/utils/panel_buffer.py
+++ b/hexrd/core/utils/panel_buffer.py
@@ -78,11 +78,11 @@ def panel_buffer_from_str(name: str, panel: Detector) -> np.ndarray:
 
 def valid_panel_buffer_names() -> list[str]:
     dir_path = importlib.resources.files(hexrd.core.resources.panel_buffers)
-    return [
+    return sorted(
         file_.name.removesuffix(".npz")
         for file_ in dir_path.iterdir()
         if file_.name.endswith('.npz')
-    ]
+    )
 
 
 # Cache this so we only read from disk once
-- 
2.43.0


From 2293500bf344988ddbe1e2657031042abd29e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:30 +0000
Subject: [PATCH 46/82] fix: seed the grains simulated to choose the clustering
 parameters

The minimum number of samples, and with it the grains found, could differ
between two runs with the same inputs.
---
 hexrd/hedm/findorientations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 5747672..65d1934 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -642,7 +642,9 @@ def create_clustering_parameters(cfg, eta_ome):
 
     # !!! default to use 100 grains
     ngrains = 100
-    rand_q = mutil.unitVector(np.random.randn(4, ngrains))
+    # !!! seeded, so that the same inputs always give the same parameters
+    rng = np.random.default_rng(0)
+    rand_q = mutil.unitVector(rng.standard_normal((4, ngrains)))
     rand_e = np.tile(2.0 * np.arccos(rand_q[0, :]), (3, 1)) * mutil.unitVector(
         rand_q[1:, :]
     )
-- 
2.43.0


From 7537b78e1f5058ea156abaf9a4276f67b823a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 47/82] fix: dexela_2923 distortion of integer coordinates

The output took the integer type of the input, so the distorted coordinates
were truncated.
---
 hexrd/core/distortion/dexela_2923.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/distortion/dexela_2923.py b/hexrd/core/distortion/dexela_2923.py
index 8a60351..d04f924 100644
--- a/hexrd/core/distortion/dexela_2923.py
+++ b/hexrd/core/distortion/dexela_2923.py
@@ -37,6 +37,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
@@ -45,6 +46,7 @@ class Dexela_2923(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_inverse_distortion(xy_out, xy_in, np.asarray(self.params))
             return xy_out
-- 
2.43.0


From f673a5808a81e45295a3d9831b485ac52ca3e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 48/82] fix: dexela_2923_quad distortion of integer coordinates

The output took the integer type of the input, so the distorted coordinates
were truncated.
---
 hexrd/core/distortion/dexela_2923_quad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hexrd/core/distortion/dexela_2923_quad.py b/hexrd/core/distortion/dexela_2923_quad.py
index b2d2978..a4b6208 100644
--- a/hexrd/core/distortion/dexela_2923_quad.py
+++ b/hexrd/core/distortion/dexela_2923_quad.py
@@ -30,6 +30,7 @@ class Dexela_2923_quad(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_quad_distortion(xy_out, xy_in, np.asarray(self.params))
@@ -39,6 +40,7 @@ class Dexela_2923_quad(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
+            xy_in = np.asarray(xy_in, dtype=float)
             xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_quad_inverse_distortion(xy_out, xy_in, np.asarray(self.params))
-- 
2.43.0


From 6c3f8d91641abc5acfd660a712d78a5aef855226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 49/82] fix: snip background of integer images

The background took the integer type of the image and was truncated.
---
 hexrd/core/imageutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageutil.py b/hexrd/core/imageutil.py
index 0729290..44c905b 100644
--- a/hexrd/core/imageutil.py
+++ b/hexrd/core/imageutil.py
@@ -49,7 +49,7 @@ def _scale_image_snip(y, offset, invert=False):
 
 def fast_snip1d(y, w=4, numiter=2):
     """ """
-    bkg = np.zeros_like(y)
+    bkg = np.zeros_like(y, dtype=float)
     min_val = np.nanmin(y)
     zfull = _scale_image_snip(y, min_val, invert=False)
     for k, z in enumerate(zfull):
@@ -73,7 +73,7 @@ def snip1d(y, w=4, numiter=2, threshold=None, max_workers=os.cpu_count()):
     !!!: mask in astropy's convolve is True for masked; set to NaN
     """
     # scale input
-    bkg = np.zeros_like(y)
+    bkg = np.zeros_like(y, dtype=float)
     min_val = np.nanmin(y)
     zfull = _scale_image_snip(y, min_val, invert=False)
 
-- 
2.43.0


From c4e4532913b1e8be13e5c2cb566ef7878be84c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 50/82] fix: angular pixel size at integer coordinates

The result took the integer type of the coordinates and was truncated to zero.
---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index e32cdb5..982c52b 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -805,7 +805,7 @@ def angularPixelSize(
         tVec_c,
         rmat_b=rmat_b,
     )
-    result = np.empty_like(xy_det)
+    result = np.empty_like(xy_det, dtype=float)
     return _compute_max(gvec_space[0], gvec_space[1], result)
 
 
-- 
2.43.0


From ef539a43897e3a3709079d40d5a9ffa58a6e6d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:33 +0000
Subject: [PATCH 51/82] fix: convert the tilt angles to double in
 make_detector_rmat

makeDetectorRotMat reads the array as doubles without checking its type, so
integer tilts gave a wrong matrix.
---
 hexrd/core/transforms/xfcapi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index 0cc167c..cdb3889 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -485,7 +485,7 @@ def make_detector_rmat(tilt_angles: NDArray[np.float64]) -> NDArray[np.float64]:
     tilt_angles = [gamma_Xl, gamma_Yl, gamma_Zl] in radians
     Returns the (3, 3) rotation matrix from the detector frame to the lab frame
     """
-    t_angles = np.ascontiguousarray(np.r_[tilt_angles].flatten())
+    t_angles = np.ascontiguousarray(np.r_[tilt_angles].flatten(), dtype=float)
     return transforms_c_api.makeDetectorRotMat(t_angles)
 
 
-- 
2.43.0


From 766fc2f146a4ea95a4f0c05df4e7deab60033d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 52/82] fix: hand contiguous angles to the C routines

The C routines read their arrays as contiguous memory; strided angles gave
the rotation of other elements of the underlying array.
---
 hexrd/core/transforms/xfcapi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/transforms/xfcapi.py b/hexrd/core/transforms/xfcapi.py
index cdb3889..1e8ff30 100644
--- a/hexrd/core/transforms/xfcapi.py
+++ b/hexrd/core/transforms/xfcapi.py
@@ -495,7 +495,7 @@ def make_detector_rmat(tilt_angles: NDArray[np.float64]) -> NDArray[np.float64]:
 
 def make_oscill_rmat(oscillAngles):
     chi, ome = oscillAngles
-    ome = np.atleast_1d(ome)
+    ome = np.ascontiguousarray(np.atleast_1d(ome))
     result = transforms_c_api.makeOscillRotMat(chi, ome)
     return result.reshape((3, 3))
 
@@ -658,7 +658,7 @@ def rotate_vecs_about_axis(
     ndarray
         Array of rotated vectors (shape == (3,n))
     """
-    angle = np.asarray(angle)
+    angle = np.asarray(angle, order="C")
     axis = np.ascontiguousarray(axis.T)
     vecs = np.ascontiguousarray(vecs.T)
     result = transforms_c_api.rotate_vecs_about_axis(angle, axis, vecs)
-- 
2.43.0


From 9eaae1ef56cb8e4abc1fdd74ce39dab9156f1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:37 +0000
Subject: [PATCH 53/82] fix: convolve inputs that need a conversion

With NumPy 2, copy=False raises when the type or the layout has to change, so
integer, strided and masked input was rejected.
---
 hexrd/core/convolution/convolve.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/convolution/convolve.py b/hexrd/core/convolution/convolve.py
index 3a48e6d..101535c 100644
--- a/hexrd/core/convolution/convolve.py
+++ b/hexrd/core/convolution/convolve.py
@@ -77,9 +77,7 @@ def _copy_input_if_needed(
                 # ``float`` masked arrays. ``subok=True`` is needed to retain
                 # ``np.ma.maskedarray.filled()``. ``copy=False`` allows the fill
                 # to act as the copy if type and order are already correct.
-                output = np.array(
-                    input, dtype=dtype, copy=False, order=order, subok=True
-                )
+                output = np.asanyarray(input, dtype=dtype, order=order)
                 output = output.filled(fill_value)
             else:
                 # Since we're making a copy, we might as well use `subok=False` to save,
@@ -96,7 +94,7 @@ def _copy_input_if_needed(
             # The advantage of `subok=True` is that it won't copy when array is an ndarray subclass. If it
             # is and `subok=False` (default), then it will copy even if `copy=False`. This uses less memory
             # when ndarray subclasses are passed in.
-            output = np.array(input, dtype=dtype, copy=False, order=order, subok=True)
+            output = np.asanyarray(input, dtype=dtype, order=order)
     except (TypeError, ValueError) as e:
         raise TypeError(
             'input should be a Numpy array or something '
-- 
2.43.0


From 0783402f192a8e4684a7690a97d0b5b89253d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 54/82] fix: paintGrid returned None for every orientation when
 there are fewer orientations than processes

---
 hexrd/hedm/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 7b657a8..5c6beaa 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -295,7 +295,7 @@ def paintGrid(
 
     if multiProcMode:
         nCPUs = nCPUs or nCPUs_DFLT
-        chunksize = min(quats.shape[1] // nCPUs, 10)
+        chunksize = max(1, min(quats.shape[1] // nCPUs, 10))
         logger.debug(
             "using multiprocessing with %d processes and a chunk size of %d",
             nCPUs,
-- 
2.43.0


From 71e952f492bbe484705f5b504888d9e1e6c34351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:40 +0000
Subject: [PATCH 55/82] fix: GenericMultiprocessing dropped the positional
 arguments of the function

---
 hexrd/core/utils/multiprocess_generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/utils/multiprocess_generic.py b/hexrd/core/utils/multiprocess_generic.py
index 0cad378..a578233 100644
--- a/hexrd/core/utils/multiprocess_generic.py
+++ b/hexrd/core/utils/multiprocess_generic.py
@@ -41,7 +41,7 @@ class GenericMultiprocessing:
         logger.info(f"Number of CPUs: {nprocs} - Running on all of them.")
 
         for i in range(nprocs):
-            pass_args = [func, q_in, q_out]
+            pass_args = [func, q_in, q_out, *args]
 
             p = Process(target=self._func_queue, args=tuple(pass_args), kwargs=kwargs)
 
-- 
2.43.0


From e133f09ed981bb6aadbae18641cddfb48e560dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:40 +0000
Subject: [PATCH 56/82] fix: an error in a GenericMultiprocessing worker left
 the caller waiting for ever

---
 hexrd/core/utils/multiprocess_generic.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/utils/multiprocess_generic.py b/hexrd/core/utils/multiprocess_generic.py
index a578233..94a472a 100644
--- a/hexrd/core/utils/multiprocess_generic.py
+++ b/hexrd/core/utils/multiprocess_generic.py
@@ -24,7 +24,12 @@ class GenericMultiprocessing:
             if pos is None:
                 break
 
-            res = func(var, *args, **kwargs)
+            try:
+                res = func(var, *args, **kwargs)
+            except Exception as e:
+                # hand the error over, the parent is waiting for a result
+                q_out.put((pos, e))
+                continue
             q_out.put((pos, res))
             logger.info(f"Finished azimuthal position #{pos} with rwp={res[2]*100}%")
 
@@ -59,6 +64,11 @@ class GenericMultiprocessing:
         results = [[] for i in range(n)]
         for i in range(len(sent)):
             index, res = q_out.get()
+            if isinstance(res, Exception):
+                # the remaining workers are daemons, end them before raising
+                for p in processes:
+                    p.terminate()
+                raise res
             results[index] = res
 
         # wait until each processor has finished
-- 
2.43.0


From 03af1f065d9ea8747dd0ff9f026373fa80aee51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:50 +0000
Subject: [PATCH 57/82] fix: drop a conversion duplicated by an earlier fix

---
 hexrd/core/distortion/dexela_2923_quad.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hexrd/core/distortion/dexela_2923_quad.py b/hexrd/core/distortion/dexela_2923_quad.py
index a4b6208..b2d2978 100644
--- a/hexrd/core/distortion/dexela_2923_quad.py
+++ b/hexrd/core/distortion/dexela_2923_quad.py
@@ -30,7 +30,6 @@ class Dexela_2923_quad(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
-            xy_in = np.asarray(xy_in, dtype=float)
             xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_quad_distortion(xy_out, xy_in, np.asarray(self.params))
@@ -40,7 +39,6 @@ class Dexela_2923_quad(DistortionABC, metaclass=_RegisterDistortionClass):
         if self.is_trivial:
             return xy_in
         else:
-            xy_in = np.asarray(xy_in, dtype=float)
             xy_in = np.asarray(xy_in, dtype=float)
             xy_out = np.empty_like(xy_in)
             _dexela_2923_quad_inverse_distortion(xy_out, xy_in, np.asarray(self.params))
-- 
2.43.0


From af9230b54732a3a286616346079f8ef9e53c3a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 58/82] fix: close the HDF5 instrument file after the
 instrument is built from it

---
 hexrd/core/config/instrument.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/config/instrument.py b/hexrd/core/config/instrument.py
index f284641..06613bb 100644
--- a/hexrd/core/config/instrument.py
+++ b/hexrd/core/config/instrument.py
@@ -39,7 +39,11 @@ class Instrument(Config):
                 'instrument_config': icfg,
                 'max_workers': self._max_workers,
             }
-            self._hedm = instrument.HEDMInstrument(**kwargs)
+            try:
+                self._hedm = instrument.HEDMInstrument(**kwargs)
+            finally:
+                if isinstance(icfg, h5py.File):
+                    icfg.close()
         return self._hedm
 
     @hedm.setter
@@ -55,7 +59,11 @@ class Instrument(Config):
             'instrument_config': icfg,
             'max_workers': self._max_workers,
         }
-        self._hedm = instrument.HEDMInstrument(**kwargs)
+        try:
+            self._hedm = instrument.HEDMInstrument(**kwargs)
+        finally:
+            if isinstance(icfg, h5py.File):
+                icfg.close()
 
     @property
     def detector_dict(self):
-- 
2.43.0


From 0b99e5e58e46c90d73e9989238f6f573c17fb8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 59/82] fix: raw image series never closed its file

---
 hexrd/core/imageseries/load/rawimage.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hexrd/core/imageseries/load/rawimage.py b/hexrd/core/imageseries/load/rawimage.py
index 1dd06c1..afccbbe 100644
--- a/hexrd/core/imageseries/load/rawimage.py
+++ b/hexrd/core/imageseries/load/rawimage.py
@@ -40,6 +40,15 @@ class RawImageSeriesAdapter(ImageSeriesAdapter):
         # Open file for reading.
         self.f = open(self.fname, "r")
 
+    def close(self):
+        # the file is missing when the constructor failed before opening it
+        f = getattr(self, 'f', None)
+        if f is not None:
+            f.close()
+
+    def __del__(self):
+        self.close()
+
     def _get_dtype(self, scalar):
         numtype = scalar['type']
         bytes_ = scalar['bytes']
-- 
2.43.0


From 55cf9ae510a7ead9e10cc514350defd49b43c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 60/82] fix: the HDF5 image series writer never closed the file
 it wrote

---
 hexrd/core/imageseries/save.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index 0efbe2b..ccaa71a 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -160,10 +160,12 @@ class WriteH5(Writer):
     def write(self):
         """Write imageseries to HDF5 file"""
         if isinstance(self._fname, h5py.File):
-            f = self._fname
+            self._write_to(self._fname)
         else:
-            f = h5py.File(self._fname, "w")
+            with h5py.File(self._fname, "w") as f:
+                self._write_to(f)
 
+    def _write_to(self, f):
         g = f.create_group(self._path)
         s0, s1 = self._shape
 
-- 
2.43.0


From 9298a522bfd3ee91f12533c68f32d27629b10022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 61/82] fix: close the JCPDS file after reading it

---
 hexrd/core/material/jcpds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/material/jcpds.py b/hexrd/core/material/jcpds.py
index 202b296..dddc4ae 100644
--- a/hexrd/core/material/jcpds.py
+++ b/hexrd/core/material/jcpds.py
@@ -47,7 +47,8 @@ class JCPDS_extend:
 
         version_status = ''
 
-        inp = open(file, 'r').readlines()
+        with open(file, 'r') as f:
+            inp = f.readlines()
         #       my_list = [] # get all the text first and throw into my_list
 
         if inp[0][0] in ('2', '3', '4'):
-- 
2.43.0


From 2ca4b0c94b723e22baa8d9315be6658d1c1adeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 62/82] fix: close the material file when writing a material
 fails

---
 hexrd/core/material/mksupport.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/material/mksupport.py b/hexrd/core/material/mksupport.py
index dbb6e3d..421bf34 100644
--- a/hexrd/core/material/mksupport.py
+++ b/hexrd/core/material/mksupport.py
@@ -490,10 +490,11 @@ def Write2H5File(AtomInfo, lat_param, path=None):
     else:
         raise TypeError('Unexpected file type.')
 
-    WriteH5Data(fid, AtomInfo, lat_param, path)
-
-    if close:
-        fid.close()
+    try:
+        WriteH5Data(fid, AtomInfo, lat_param, path)
+    finally:
+        if close:
+            fid.close()
 
 
 def WriteH5Data(fid, AtomInfo, lat_param, path=None):
-- 
2.43.0


From a912ede8664a634fc62158f6060a1b633fcfc7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 63/82] fix: close the anomalous scattering data file after
 reading it

---
 hexrd/core/material/unitcell.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/material/unitcell.py b/hexrd/core/material/unitcell.py
index ba2d640..05cbd5e 100644
--- a/hexrd/core/material/unitcell.py
+++ b/hexrd/core/material/unitcell.py
@@ -760,12 +760,10 @@ class unitcell:
     def InitializeInterpTable(self):
         f_anomalous_data = []
         self.pe_cs = {}
-        data = (
-            importlib.resources.files(hexrd.core.resources)
-            .joinpath("Anomalous.h5")
-            .open("rb")
+        data_path = importlib.resources.files(hexrd.core.resources).joinpath(
+            "Anomalous.h5"
         )
-        with h5py.File(data, "r") as fid:
+        with data_path.open("rb") as data_file, h5py.File(data_file, "r") as fid:
             for i in range(0, self.atom_ntype):
                 Z = self.atom_type[i]
                 elem = constants.ptableinverse[Z]
-- 
2.43.0


From 1c6d220dd614e84529fc0c7ce9166af55c65eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 64/82] fix: close the panel buffer archive after reading it

---
 hexrd/core/utils/panel_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/utils/panel_buffer.py b/hexrd/core/utils/panel_buffer.py
index 4b34b14..21498a7 100644
--- a/hexrd/core/utils/panel_buffer.py
+++ b/hexrd/core/utils/panel_buffer.py
@@ -94,8 +94,8 @@ def _load_panel_buffer_from_file(name: str) -> np.ndarray:
     if not path.is_file():
         raise NotImplementedError(f'Unknown panel buffer name: {name}')
 
-    npz = np.load(str(path))
-    buffer = npz['panel_buffer']
+    with np.load(str(path)) as npz:
+        buffer = npz['panel_buffer']
 
     # Since the output here is memoized, make sure this is never modified
     buffer.flags.writeable = False
-- 
2.43.0


From 96a11b86d18013f538838c33850046c4c83317bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:17 +0000
Subject: [PATCH 65/82] fix: close the grain data archive after reading it

---
 hexrd/hedm/cli/fit_grains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/cli/fit_grains.py b/hexrd/hedm/cli/fit_grains.py
index 2b23ad3..d23a987 100644
--- a/hexrd/hedm/cli/fit_grains.py
+++ b/hexrd/hedm/cli/fit_grains.py
@@ -60,7 +60,8 @@ class GrainData(_BaseGrainData):
         fname: path | string
             name of the file to load
         """
-        return cls(**np.load(fname))
+        with np.load(fname) as npz:
+            return cls(**npz)
 
     @classmethod
     def from_grains_out(cls, fname):
-- 
2.43.0


From 75c2d87021d104051943a53b0c5e66e3d8c8696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 66/82] fix: a bad line in a JCPDS file left a second handle on
 it open

---
 hexrd/core/material/jcpds.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/hexrd/core/material/jcpds.py b/hexrd/core/material/jcpds.py
index dddc4ae..842f123 100644
--- a/hexrd/core/material/jcpds.py
+++ b/hexrd/core/material/jcpds.py
@@ -151,12 +151,7 @@ class JCPDS_extend:
             version_status = 'new'
 
         elif 'VERSION' in inp[0]:
-            jcpdsfile = open(file, 'r')
-            while True:
-                jcpdsline = jcpdsfile.readline()
-                if jcpdsline == '':
-                    break
-
+            for jcpdsline in inp:
                 jlinespl = jcpdsline.split()
 
                 if jlinespl[0] == 'VERSION:':
@@ -256,8 +251,6 @@ class JCPDS_extend:
                 self.gamma0 = 90.0
             # elif self.symmetry == 'triclinic':
 
-            jcpdsfile.close()
-
             version_status = 'new'
 
         else:
-- 
2.43.0


From 3e825ee3fb772b1bed5f6a22d2b5bdddb32f0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 67/82] fix: close the material file when reading a material
 fails

---
 hexrd/core/material/material.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 1905956..59a9fbb 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -826,13 +826,14 @@ class Material(object):
             if not path.exists(fhdf):
                 raise IOError('material file does not exist.')
 
-            root_gid = h5py.File(fhdf, 'r')
-            xtal = f'/{xtal}'
+            with h5py.File(fhdf, 'r') as root_gid:
+                self._read_crystal(root_gid, f'/{xtal}')
         elif isinstance(fhdf, h5py.Group):
-            root_gid = fhdf
+            self._read_crystal(fhdf, xtal)
         else:
             raise Exception(f'Unknown type for fhdf: {fhdf}')
 
+    def _read_crystal(self, root_gid, xtal):
         if xtal not in root_gid:
             raise IOError('crystal doesn' 't exist in material file.')
 
@@ -968,10 +969,6 @@ class Material(object):
         if 'hkls' in gid:
             self.hkl_from_file = np.array(gid.get('hkls'), dtype=np.int32)
 
-        if isinstance(fhdf, (Path, str)):
-            # Close the file...
-            root_gid.close()
-
     def dump_material(self, file, path=None):
         '''
         get the atominfo dictionaary aand the lattice parameters
-- 
2.43.0


From 2b2f7891834d663307913ff59509d4e06271b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 68/82] fix: WPPF.dump_hdf5 never closed the file it wrote

---
 hexrd/powder/wppf/WPPF.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hexrd/powder/wppf/WPPF.py b/hexrd/powder/wppf/WPPF.py
index 66bbbcc..1e7729e 100644
--- a/hexrd/powder/wppf/WPPF.py
+++ b/hexrd/powder/wppf/WPPF.py
@@ -94,10 +94,9 @@ class AbstractWPPF(ABC):
         """
         if isinstance(file, str):
             fexist = path.isfile(file)
-            if fexist:
-                fid = h5py.File(file, "r+")
-            else:
-                fid = h5py.File(file, "x")
+            with h5py.File(file, "r+" if fexist else "x") as fid:
+                self.dump_hdf5(fid)
+            return
 
         elif isinstance(file, h5py.File):
             fid = file
-- 
2.43.0


From 4cbbc454e4ab8664c34da547787e0255e604d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 69/82] fix: Phases.dump_hdf5 opened a file named after the
 mode and never closed it

---
 hexrd/powder/wppf/phase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/powder/wppf/phase.py b/hexrd/powder/wppf/phase.py
index 8f06d3b..83d98df 100644
--- a/hexrd/powder/wppf/phase.py
+++ b/hexrd/powder/wppf/phase.py
@@ -990,7 +990,9 @@ class AbstractPhases(ABC):
         """
         if isinstance(file, str):
             mode = 'r+' if Path(file).exists() else 'x'
-            fid = h5py.File(mode)
+            with h5py.File(file, mode) as fid:
+                self.dump_hdf5(fid)
+            return
         elif isinstance(file, h5py.File):
             fid = file
         else:
-- 
2.43.0


From f212b02121be4daaceb4530f46cdbd3ca82de6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 70/82] fix: Spectrum.dump_hdf5 never closed the file it wrote

---
 hexrd/powder/wppf/spectrum.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hexrd/powder/wppf/spectrum.py b/hexrd/powder/wppf/spectrum.py
index e77e371..5536ddd 100644
--- a/hexrd/powder/wppf/spectrum.py
+++ b/hexrd/powder/wppf/spectrum.py
@@ -95,10 +95,9 @@ class Spectrum:
 
         if isinstance(file, str):
             fexist = os.path.isfile(file)
-            if fexist:
-                fid = h5py.File(file, 'r+')
-            else:
-                fid = h5py.File(file, 'x')
+            with h5py.File(file, 'r+' if fexist else 'x') as fid:
+                self.dump_hdf5(fid, name)
+            return
 
         elif isinstance(file, h5py.File):
             fid = file
-- 
2.43.0


From c0b4d4caf999510165eac919fa7ff60522980ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 71/82] fix: close the files the near-field result handlers and
 maps are read from

---
 hexrd/hedm/grainmap/nfutil.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 28d9e52..1867117 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -207,7 +207,8 @@ def saving_result_handler(filename):
         def __del__(self):
             logger.debug("Writing arrays in %(filename)s", self.__dict__)
             try:
-                np.savez_compressed(open(self.filename, "wb"), **self.arrays)
+                with open(self.filename, "wb") as f:
+                    np.savez_compressed(f, **self.arrays)
             except IOError:
                 logger.error("Failed to write %(filename)s", self.__dict__)
 
@@ -230,7 +231,8 @@ def checking_result_handler(filename):
         def __init__(self, reference_file):
             """Checks the result against those save in 'reference_file'"""
             logger.info("Loading reference results from '%s'", reference_file)
-            self.reference_results = np.load(open(reference_file, 'rb'))
+            with open(reference_file, 'rb') as f, np.load(f) as npz:
+                self.reference_results = dict(npz)
 
         def handle_result(self, key, value):
             if key in ['experiment', 'image_stack']:
@@ -1715,15 +1717,14 @@ def output_grain_map(
 
     for ii in np.arange(num_scans):
         logger.info(f'Loading Volume {ii} ....')
-        conf_data = np.load(
+        with np.load(
             os.path.join(data_location, data_stems[ii] + '_grain_map_data.npz')
-        )
-
-        confidence_maps[ii] = conf_data['confidence_map']
-        grain_maps[ii] = conf_data['grain_map']
-        Xss[ii] = conf_data['Xs']
-        Yss[ii] = conf_data['Ys']
-        Zss[ii] = conf_data['Zs']
+        ) as conf_data:
+            confidence_maps[ii] = conf_data['confidence_map']
+            grain_maps[ii] = conf_data['grain_map']
+            Xss[ii] = conf_data['Xs']
+            Yss[ii] = conf_data['Ys']
+            Zss[ii] = conf_data['Zs']
 
     # assumes all volumes to be the same size
     num_layers = grain_maps[0].shape[0]
-- 
2.43.0


From c744d4eb736472d692c44078e2e197f6e59cd7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 72/82] fix: close the assembled near-field map files, also
 when writing fails

---
 hexrd/hedm/grainmap/nfutil.py | 108 +++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 55 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 1867117..775bdc1 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1780,12 +1780,12 @@ def output_grain_map(
         if save_type[ii] == 'hdf5':
             logger.info('Writing HDF5 data...')
 
-            hf = h5py.File(output_stem + '_assembled.h5', 'w')
-            hf.create_dataset('grain_map', data=grain_map_stitched)
-            hf.create_dataset('confidence', data=confidence_stitched)
-            hf.create_dataset('Xs', data=Xs_stitched)
-            hf.create_dataset('Ys', data=Ys_stitched)
-            hf.create_dataset('Zs', data=Zs_stitched)
+            with h5py.File(output_stem + '_assembled.h5', 'w') as hf:
+                hf.create_dataset('grain_map', data=grain_map_stitched)
+                hf.create_dataset('confidence', data=confidence_stitched)
+                hf.create_dataset('Xs', data=Xs_stitched)
+                hf.create_dataset('Ys', data=Ys_stitched)
+                hf.create_dataset('Zs', data=Zs_stitched)
 
         elif save_type[ii] == 'npz':
             logger.info('Writing NPZ data...')
@@ -1812,55 +1812,53 @@ def output_grain_map(
             num_pts = Xslist.shape[0]
             num_cells = (total_layers - 1) * (num_rows - 1) * (num_cols - 1)
 
-            f = open(os.path.join(output_stem + '_assembled.vtk'), 'w')
-
-            f.write('# vtk DataFile Version 3.0\n')
-            f.write('grainmap Data\n')
-            f.write('ASCII\n')
-            f.write('DATASET UNSTRUCTURED_GRID\n')
-            f.write('POINTS %d double\n' % (num_pts))
-
-            for i in np.arange(num_pts):
-                f.write('%e %e %e \n' % (Xslist[i], Yslist[i], Zslist[i]))
-
-            scale2 = num_cols * num_rows
-            scale1 = num_cols
-
-            f.write('CELLS %d %d\n' % (num_cells, 9 * num_cells))
-            for k in np.arange(Xs_stitched.shape[0] - 1):
-                for j in np.arange(Xs_stitched.shape[1] - 1):
-                    for i in np.arange(Xs_stitched.shape[2] - 1):
-                        base = scale2 * k + scale1 * j + i
-                        p1 = base
-                        p2 = base + 1
-                        p3 = base + 1 + scale1
-                        p4 = base + scale1
-                        p5 = base + scale2
-                        p6 = base + scale2 + 1
-                        p7 = base + scale2 + scale1 + 1
-                        p8 = base + scale2 + scale1
-
-                        f.write(
-                            '8 %d %d %d %d %d %d %d %d \n'
-                            % (p1, p2, p3, p4, p5, p6, p7, p8)
-                        )
-
-            f.write('CELL_TYPES %d \n' % (num_cells))
-            for i in np.arange(num_cells):
-                f.write('12 \n')
-
-            f.write('POINT_DATA %d \n' % (num_pts))
-            f.write('SCALARS grain_id int \n')
-            f.write('LOOKUP_TABLE default \n')
-            for i in np.arange(num_pts):
-                f.write('%d \n' % (grainlist[i]))
-
-            f.write('FIELD FieldData 1 \n')
-            f.write('confidence 1 %d float \n' % (num_pts))
-            for i in np.arange(num_pts):
-                f.write('%e \n' % (conflist[i]))
-
-            f.close()
+            with open(os.path.join(output_stem + '_assembled.vtk'), 'w') as f:
+
+                f.write('# vtk DataFile Version 3.0\n')
+                f.write('grainmap Data\n')
+                f.write('ASCII\n')
+                f.write('DATASET UNSTRUCTURED_GRID\n')
+                f.write('POINTS %d double\n' % (num_pts))
+
+                for i in np.arange(num_pts):
+                    f.write('%e %e %e \n' % (Xslist[i], Yslist[i], Zslist[i]))
+
+                scale2 = num_cols * num_rows
+                scale1 = num_cols
+
+                f.write('CELLS %d %d\n' % (num_cells, 9 * num_cells))
+                for k in np.arange(Xs_stitched.shape[0] - 1):
+                    for j in np.arange(Xs_stitched.shape[1] - 1):
+                        for i in np.arange(Xs_stitched.shape[2] - 1):
+                            base = scale2 * k + scale1 * j + i
+                            p1 = base
+                            p2 = base + 1
+                            p3 = base + 1 + scale1
+                            p4 = base + scale1
+                            p5 = base + scale2
+                            p6 = base + scale2 + 1
+                            p7 = base + scale2 + scale1 + 1
+                            p8 = base + scale2 + scale1
+
+                            f.write(
+                                '8 %d %d %d %d %d %d %d %d \n'
+                                % (p1, p2, p3, p4, p5, p6, p7, p8)
+                            )
+
+                f.write('CELL_TYPES %d \n' % (num_cells))
+                for i in np.arange(num_cells):
+                    f.write('12 \n')
+
+                f.write('POINT_DATA %d \n' % (num_pts))
+                f.write('SCALARS grain_id int \n')
+                f.write('LOOKUP_TABLE default \n')
+                for i in np.arange(num_pts):
+                    f.write('%d \n' % (grainlist[i]))
+
+                f.write('FIELD FieldData 1 \n')
+                f.write('confidence 1 %d float \n' % (num_pts))
+                for i in np.arange(num_pts):
+                    f.write('%e \n' % (conflist[i]))
 
         else:
             logger.error(f'{save_type[ii]} is not a valid: hdf5, npz, vtk allowed.')
-- 
2.43.0


From 6478a3a53c616c90350f1e438181567055d9456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 73/82] fix: close the files of the stitched grain map, also
 when writing fails

---
 hexrd/hedm/grainmap/vtkutil.py | 109 ++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 56 deletions(-)

diff --git a/hexrd/hedm/grainmap/vtkutil.py b/hexrd/hedm/grainmap/vtkutil.py
index e774c7c..15224d1 100644
--- a/hexrd/hedm/grainmap/vtkutil.py
+++ b/hexrd/hedm/grainmap/vtkutil.py
@@ -20,15 +20,14 @@ def output_grain_map_vtk(
 
     for ii in np.arange(num_scans):
         logger.info(f'Loading Volume {ii}...')
-        conf_data = np.load(
+        with np.load(
             os.path.join(data_location, data_stems[ii] + '_grain_map_data.npz')
-        )
-
-        confidence_maps[ii] = conf_data['confidence_map']
-        grain_maps[ii] = conf_data['grain_map']
-        Xss[ii] = conf_data['Xs']
-        Yss[ii] = conf_data['Ys']
-        Zss[ii] = conf_data['Zs']
+        ) as conf_data:
+            confidence_maps[ii] = conf_data['confidence_map']
+            grain_maps[ii] = conf_data['grain_map']
+            Xss[ii] = conf_data['Xs']
+            Yss[ii] = conf_data['Ys']
+            Zss[ii] = conf_data['Zs']
 
     # assumes all volumes to be the same size
     num_layers = grain_maps[0].shape[0]
@@ -91,51 +90,49 @@ def output_grain_map_vtk(
     num_pts = Xslist.shape[0]
     num_cells = (total_layers - 1) * (num_rows - 1) * (num_cols - 1)
 
-    f = open(os.path.join(data_location, output_stem + '_stitch.vtk'), 'w')
-
-    f.write('# vtk DataFile Version 3.0\n')
-    f.write('grainmap Data\n')
-    f.write('ASCII\n')
-    f.write('DATASET UNSTRUCTURED_GRID\n')
-    f.write('POINTS %d double\n' % (num_pts))
-
-    for i in np.arange(num_pts):
-        f.write('%e %e %e \n' % (Xslist[i], Yslist[i], Zslist[i]))
-
-    scale2 = num_cols * num_rows
-    scale1 = num_cols
-
-    f.write('CELLS %d %d\n' % (num_cells, 9 * num_cells))
-    for k in np.arange(Xs_stitched.shape[0] - 1):
-        for j in np.arange(Xs_stitched.shape[1] - 1):
-            for i in np.arange(Xs_stitched.shape[2] - 1):
-                base = scale2 * k + scale1 * j + i
-                p1 = base
-                p2 = base + 1
-                p3 = base + 1 + scale1
-                p4 = base + scale1
-                p5 = base + scale2
-                p6 = base + scale2 + 1
-                p7 = base + scale2 + scale1 + 1
-                p8 = base + scale2 + scale1
-
-                f.write(
-                    '8 %d %d %d %d %d %d %d %d \n' % (p1, p2, p3, p4, p5, p6, p7, p8)
-                )
-
-    f.write('CELL_TYPES %d \n' % (num_cells))
-    for i in np.arange(num_cells):
-        f.write('12 \n')
-
-    f.write('POINT_DATA %d \n' % (num_pts))
-    f.write('SCALARS grain_id int \n')
-    f.write('LOOKUP_TABLE default \n')
-    for i in np.arange(num_pts):
-        f.write('%d \n' % (grainlist[i]))
-
-    f.write('FIELD FieldData 1 \n')
-    f.write('confidence 1 %d float \n' % (num_pts))
-    for i in np.arange(num_pts):
-        f.write('%e \n' % (conflist[i]))
-
-    f.close()
+    with open(os.path.join(data_location, output_stem + '_stitch.vtk'), 'w') as f:
+
+        f.write('# vtk DataFile Version 3.0\n')
+        f.write('grainmap Data\n')
+        f.write('ASCII\n')
+        f.write('DATASET UNSTRUCTURED_GRID\n')
+        f.write('POINTS %d double\n' % (num_pts))
+
+        for i in np.arange(num_pts):
+            f.write('%e %e %e \n' % (Xslist[i], Yslist[i], Zslist[i]))
+
+        scale2 = num_cols * num_rows
+        scale1 = num_cols
+
+        f.write('CELLS %d %d\n' % (num_cells, 9 * num_cells))
+        for k in np.arange(Xs_stitched.shape[0] - 1):
+            for j in np.arange(Xs_stitched.shape[1] - 1):
+                for i in np.arange(Xs_stitched.shape[2] - 1):
+                    base = scale2 * k + scale1 * j + i
+                    p1 = base
+                    p2 = base + 1
+                    p3 = base + 1 + scale1
+                    p4 = base + scale1
+                    p5 = base + scale2
+                    p6 = base + scale2 + 1
+                    p7 = base + scale2 + scale1 + 1
+                    p8 = base + scale2 + scale1
+
+                    f.write(
+                        '8 %d %d %d %d %d %d %d %d \n' % (p1, p2, p3, p4, p5, p6, p7, p8)
+                    )
+
+        f.write('CELL_TYPES %d \n' % (num_cells))
+        for i in np.arange(num_cells):
+            f.write('12 \n')
+
+        f.write('POINT_DATA %d \n' % (num_pts))
+        f.write('SCALARS grain_id int \n')
+        f.write('LOOKUP_TABLE default \n')
+        for i in np.arange(num_pts):
+            f.write('%d \n' % (grainlist[i]))
+
+        f.write('FIELD FieldData 1 \n')
+        f.write('confidence 1 %d float \n' % (num_pts))
+        for i in np.arange(num_pts):
+            f.write('%e \n' % (conflist[i]))
-- 
2.43.0


From 96f3228093d3e4ce08f71c7c0f55ac6834058b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 74/82] fix: an error in the near-field grand loop left its
 workers and its state behind

---
 hexrd/hedm/grainmap/nfutil.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 775bdc1..1f80014 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1028,9 +1028,11 @@ def grand_loop_pool(ncpus, state):
         # theprocessing the global is removed.
         global _mp_state
         _mp_state = state
-        pool = multiprocessing.Pool(ncpus)
-        yield pool
-        del _mp_state
+        try:
+            with multiprocessing.Pool(ncpus) as pool:
+                yield pool
+        finally:
+            del _mp_state
     else:
         # Use SPAWN multiprocessing.
 
@@ -1054,8 +1056,10 @@ def grand_loop_pool(ncpus, state):
                 compress=True,
             )
             id_state = joblib.dump(state[:-1], os.path.join(tmp_dir, 'grand-loop-data'))
-            pool = multiprocessing.Pool(ncpus, worker_init, (id_state[0], id_exp[0]))
-            yield pool
+            with multiprocessing.Pool(
+                ncpus, worker_init, (id_state[0], id_exp[0])
+            ) as pool:
+                yield pool
         finally:
             logger.info('Deleting "%s".', tmp_dir)
             shutil.rmtree(tmp_dir)
-- 
2.43.0


From f6b0f5a2a68bcc995dbc62d279b75872a2a8ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 75/82] fix: every grain left the overlap table open

---
 hexrd/hedm/fitgrains.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 0d53931..e437756 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -278,12 +278,13 @@ def determine_valid_reflections(
         # if an overlap table has been written, load it and use it
         overlaps = np.zeros_like(idx, dtype=bool)
         try:
-            ot = np.load(
+            with np.load(
                 os.path.join(
                     analysis_dirname,
                     os.path.join(det_key, OVERLAP_TABLE_FILE),
                 )
-            )
+            ) as npz:
+                ot = dict(npz)
             for key in ot.keys():
                 for this_table in ot[key]:
                     these_overlaps = np.where(this_table[:, 0] == grain_id)[0]
-- 
2.43.0


From 263346b2bd25cb9e22d6600b2f965059a0f64cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 76/82] fix: close the eta-omega map archive after reading it

---
 hexrd/hedm/xrdutil/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 982c52b..21942f8 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -87,7 +87,8 @@ class EtaOmeMaps(object):
     """
 
     def __init__(self, ome_eta_archive: str):
-        ome_eta: np.ndarray = np.load(ome_eta_archive, allow_pickle=True)
+        with np.load(ome_eta_archive, allow_pickle=True) as npz:
+            ome_eta: dict[str, np.ndarray] = dict(npz)
 
         planeData_args = ome_eta['planeData_args']
         planeData_hkls = ome_eta['planeData_hkls']
-- 
2.43.0


From 3f654ed587d007dbb9f29f19ab632bd5d9f5e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 77/82] fix: an error in the orientation search left its worker
 processes running

---
 hexrd/hedm/findorientations.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 65d1934..cb208a8 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -149,10 +149,11 @@ def generate_orientation_fibers(cfg, eta_ome):
         # ???: Need a chunksize in map?
         chunksize = max(1, len(input_p) // (10 * ncpus))
         pool = const.mp_context.Pool(ncpus, discretefiber_init, (params,))
-        qfib = pool.map(discretefiber_reduced, input_p, chunksize=chunksize)
-
-        pool.close()
-        pool.join()
+        try:
+            qfib = pool.map(discretefiber_reduced, input_p, chunksize=chunksize)
+        finally:
+            pool.close()
+            pool.join()
     else:
         # single process version.
         discretefiber_init(params)  # sets paramMP
@@ -783,9 +784,11 @@ def find_orientations(
 
         # execute direct search
         pool = const.mp_context.Pool(ncpus, indexer.test_orientation_FF_init, (params,))
-        completeness = pool.map(indexer.test_orientation_FF_reduced, qfib.T)
-        pool.close()
-        pool.join()
+        try:
+            completeness = pool.map(indexer.test_orientation_FF_reduced, qfib.T)
+        finally:
+            pool.close()
+            pool.join()
     else:
         logger.debug("\tusing map search with paintGrid on %d processes", ncpus)
 
-- 
2.43.0


From 0773e592fe6f23e2f35b23845af5ed267ec5b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 78/82] fix: an error in paintGrid left its worker processes or
 its parameters behind

---
 hexrd/hedm/indexer.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 5c6beaa..dee92e5 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -342,15 +342,19 @@ def paintGrid(
     if multiProcMode:
         # multiple process version
         pool = constants.mp_context.Pool(nCPUs, paintgrid_init, (params,))
-        retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
-        pool.close()
-        pool.join()
+        try:
+            retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
+        finally:
+            pool.close()
+            pool.join()
     else:
         # single process version.
         global paramMP
         paintgrid_init(params)  # sets paramMP
-        retval = list(map(paintGridThis, quats.T))
-        paramMP = None  # clear paramMP
+        try:
+            retval = list(map(paintGridThis, quats.T))
+        finally:
+            paramMP = None  # clear paramMP
     elapsed = timeit.default_timer() - start
     logger.info("paintGrid took %.3f seconds", elapsed)
 
-- 
2.43.0


From 37d6b4ef6545c77eba53ddeb2b6d1aeb65e3b5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 79/82] fix: find-orientations --profile failed after the
 search

---
 hexrd/hedm/cli/find_orientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/cli/find_orientations.py b/hexrd/hedm/cli/find_orientations.py
index 29f61dd..53f5fbd 100644
--- a/hexrd/hedm/cli/find_orientations.py
+++ b/hexrd/hedm/cli/find_orientations.py
@@ -145,7 +145,7 @@ def execute(args, parser):
 
     if args.profile:
         pr.disable()
-        s = StringIO.StringIO()
+        s = StringIO()
         ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
         ps.print_stats(50)
         logger.info('%s', s.getvalue())
-- 
2.43.0


From 9b71c5bbea5a59e875f030aa8b86d885b05355cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 80/82] fix: a failing find-orientations run left its log file
 open

---
 hexrd/hedm/cli/find_orientations.py | 49 +++++++++++++++--------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/hexrd/hedm/cli/find_orientations.py b/hexrd/hedm/cli/find_orientations.py
index 53f5fbd..e10192d 100644
--- a/hexrd/hedm/cli/find_orientations.py
+++ b/hexrd/hedm/cli/find_orientations.py
@@ -127,33 +127,34 @@ def execute(args, parser):
     logger.info("logging to %s", logfile)
     logger.addHandler(fh)
 
-    if args.profile:
-        import cProfile as profile
-        import pstats
-        from io import StringIO
-
-        pr = profile.Profile()
-        pr.enable()
-
-    # process the data
-    results = find_orientations(
-        cfg, hkls=args.hkls, clean=args.clean, profile=args.profile
-    )
+    try:
+        if args.profile:
+            import cProfile as profile
+            import pstats
+            from io import StringIO
 
-    # Write out the results
-    write_results(results, cfg)
+            pr = profile.Profile()
+            pr.enable()
 
-    if args.profile:
-        pr.disable()
-        s = StringIO()
-        ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
-        ps.print_stats(50)
-        logger.info('%s', s.getvalue())
+        # process the data
+        results = find_orientations(
+            cfg, hkls=args.hkls, clean=args.clean, profile=args.profile
+        )
 
-    # clean up the logging
-    fh.flush()
-    fh.close()
-    logger.removeHandler(fh)
+        # Write out the results
+        write_results(results, cfg)
+
+        if args.profile:
+            pr.disable()
+            s = StringIO()
+            ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
+            ps.print_stats(50)
+            logger.info('%s', s.getvalue())
+    finally:
+        # clean up the logging
+        fh.flush()
+        fh.close()
+        logger.removeHandler(fh)
     logger.info('=== end find-orientations ===')
     ch.flush()
     ch.close()
-- 
2.43.0


From e8a11da589e39d161eadce4a82ffc9e5383c04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 81/82] fix: fit-grains --profile failed after the fit

---
 hexrd/hedm/cli/fit_grains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/cli/fit_grains.py b/hexrd/hedm/cli/fit_grains.py
index d23a987..f3db9b6 100644
--- a/hexrd/hedm/cli/fit_grains.py
+++ b/hexrd/hedm/cli/fit_grains.py
@@ -395,7 +395,7 @@ def execute(args, parser):
 
         if args.profile:
             pr.disable()
-            s = StringIO.StringIO()
+            s = StringIO()
             ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
             ps.print_stats(50)
             logger.info('%s', s.getvalue())
-- 
2.43.0


From 161f6b52eeab1af45f947eadbd52888534c12de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 82/82] fix: a failing fit-grains analysis left its log file
 open and attached

---
 hexrd/hedm/cli/fit_grains.py | 163 ++++++++++++++++++-----------------
 1 file changed, 82 insertions(+), 81 deletions(-)

diff --git a/hexrd/hedm/cli/fit_grains.py b/hexrd/hedm/cli/fit_grains.py
index f3db9b6..c8ba682 100644
--- a/hexrd/hedm/cli/fit_grains.py
+++ b/hexrd/hedm/cli/fit_grains.py
@@ -318,92 +318,93 @@ def execute(args, parser):
         logger.info("logging to %s", logfile)
         logger.addHandler(fh)
 
-        if args.profile:
-            import cProfile as profile
-            import pstats
-            from io import StringIO
-
-            pr = profile.Profile()
-            pr.enable()
-
-        # some conditionals for arg handling
-        existing_analysis = grains_filename.exists()
-        fit_estimate = cfg.fit_grains.estimate
-        new_with_estimate = not existing_analysis and fit_estimate is not None
-        new_without_estimate = not existing_analysis and fit_estimate is None
-        force_with_estimate = args.force and fit_estimate is not None
-        force_without_estimate = args.force and fit_estimate is None
-        #
-        # ------- handle args
-        # - 'clean' indicates ignoring any estimate specified and starting with
-        #   the 'accepted_orientations' file.  Will run find-orientations if
-        #   it doesn't exist
-        # - 'force' means ignore existing analysis directory.  If the config
-        #   option "fit_grains:estimate" is None, will use results from
-        #   find-orientations.  If 'accepted_orientations' does not exists,
-        #   then it runs find-orientations.
-        #
-        if args.clean or force_without_estimate or new_without_estimate:
-            # need accepted orientations from indexing in this case
-            if args.clean:
-                logger.info("'clean' specified; ignoring estimate and using default")
-            elif force_without_estimate:
-                logger.info(
-                    "'force' option specified, but no initial estimate; "
-                    + "using default"
+        try:
+            if args.profile:
+                import cProfile as profile
+                import pstats
+                from io import StringIO
+
+                pr = profile.Profile()
+                pr.enable()
+
+            # some conditionals for arg handling
+            existing_analysis = grains_filename.exists()
+            fit_estimate = cfg.fit_grains.estimate
+            new_with_estimate = not existing_analysis and fit_estimate is not None
+            new_without_estimate = not existing_analysis and fit_estimate is None
+            force_with_estimate = args.force and fit_estimate is not None
+            force_without_estimate = args.force and fit_estimate is None
+            #
+            # ------- handle args
+            # - 'clean' indicates ignoring any estimate specified and starting with
+            #   the 'accepted_orientations' file.  Will run find-orientations if
+            #   it doesn't exist
+            # - 'force' means ignore existing analysis directory.  If the config
+            #   option "fit_grains:estimate" is None, will use results from
+            #   find-orientations.  If 'accepted_orientations' does not exists,
+            #   then it runs find-orientations.
+            #
+            if args.clean or force_without_estimate or new_without_estimate:
+                # need accepted orientations from indexing in this case
+                if args.clean:
+                    logger.info("'clean' specified; ignoring estimate and using default")
+                elif force_without_estimate:
+                    logger.info(
+                        "'force' option specified, but no initial estimate; "
+                        + "using default"
+                    )
+                try:
+                    # Write the accepted orientations (in `qbar`) to the
+                    # grains.out file
+                    gw = instrument.GrainDataWriter(grains_filename)
+                    for i_g, q in enumerate(qbar.T):
+                        phi = 2 * np.arccos(q[0])
+                        n = xfcapi.unit_vector(q[1:])
+                        grain_params = np.hstack([phi * n, cnst.zeros_3, cnst.identity_6x1])
+                        gw.dump_grain(int(i_g), 1.0, 0.0, grain_params)
+                    gw.close()
+                except IOError:
+                    raise RuntimeError(
+                        "indexing results '%s' not found!" % str(grains_filename)
+                    )
+            elif force_with_estimate or new_with_estimate:
+                grains_filename = fit_estimate
+                logger.info("using initial estimate '%s'", fit_estimate)
+            elif existing_analysis and not clobber:
+                raise RuntimeError(
+                    "fit results '%s' exist, " % grains_filename
+                    + "but --clean or --force options not specified"
                 )
+
+            # get grain parameters by loading grains table
             try:
-                # Write the accepted orientations (in `qbar`) to the
-                # grains.out file
-                gw = instrument.GrainDataWriter(grains_filename)
-                for i_g, q in enumerate(qbar.T):
-                    phi = 2 * np.arccos(q[0])
-                    n = xfcapi.unit_vector(q[1:])
-                    grain_params = np.hstack([phi * n, cnst.zeros_3, cnst.identity_6x1])
-                    gw.dump_grain(int(i_g), 1.0, 0.0, grain_params)
-                gw.close()
+                grains_table = np.loadtxt(grains_filename, ndmin=2)
             except IOError:
-                raise RuntimeError(
-                    "indexing results '%s' not found!" % str(grains_filename)
-                )
-        elif force_with_estimate or new_with_estimate:
-            grains_filename = fit_estimate
-            logger.info("using initial estimate '%s'", fit_estimate)
-        elif existing_analysis and not clobber:
-            raise RuntimeError(
-                "fit results '%s' exist, " % grains_filename
-                + "but --clean or --force options not specified"
+                raise RuntimeError("problem loading '%s'" % grains_filename)
+
+            # process the data
+            gid_list = None
+            if args.grains is not None:
+                gid_list = [int(i) for i in args.grains.split(',')]
+
+            fit_results = fit_grains(
+                cfg,
+                grains_table,
+                show_progress=not args.quiet,
+                ids_to_refine=gid_list,
             )
 
-        # get grain parameters by loading grains table
-        try:
-            grains_table = np.loadtxt(grains_filename, ndmin=2)
-        except IOError:
-            raise RuntimeError("problem loading '%s'" % grains_filename)
-
-        # process the data
-        gid_list = None
-        if args.grains is not None:
-            gid_list = [int(i) for i in args.grains.split(',')]
-
-        fit_results = fit_grains(
-            cfg,
-            grains_table,
-            show_progress=not args.quiet,
-            ids_to_refine=gid_list,
-        )
-
-        if args.profile:
-            pr.disable()
-            s = StringIO()
-            ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
-            ps.print_stats(50)
-            logger.info('%s', s.getvalue())
-
-        # stop logging for this particular analysis
-        fh.flush()
-        fh.close()
-        logger.removeHandler(fh)
+            if args.profile:
+                pr.disable()
+                s = StringIO()
+                ps = pstats.Stats(pr, stream=s).sort_stats('cumulative')
+                ps.print_stats(50)
+                logger.info('%s', s.getvalue())
+        finally:
+            # stop logging for this particular analysis
+            fh.flush()
+            fh.close()
+            logger.removeHandler(fh)
 
         logger.info('*** end analysis "%s" ***', cfg.analysis_name)
 
-- 
2.43.0

