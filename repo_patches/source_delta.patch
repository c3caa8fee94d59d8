From 1d7aea275c18ce82d5712110192638ac4953c331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 01/34] fix: interpolation returns None when the good pixels
 cannot be triangulated

---
 metadetect/interpolate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..33ea832 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -3,6 +3,7 @@ interpolation utils - orig. from beckermr/pizza-cutter
 """
 import numpy as np
 from scipy.interpolate import CloughTocher2DInterpolator
+from scipy.spatial import QhullError
 import logging
 
 from numba import njit
@@ -149,7 +150,8 @@ def interpolate_image_at_mask(
     Returns
     -------
     interp_image : array-like
-        The interpolated image.
+        The interpolated image, or None if too many pixels are bad or the good
+        ones cannot support an interpolant.
     """
     nrows, ncols = image.shape
     npix = bad_msk.size
@@ -206,11 +208,15 @@ def interpolate_image_at_mask(
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-        img_interp = CloughTocher2DInterpolator(
-            good_pix,
-            good_im,
-            fill_value=0.0,
-        )
+        try:
+            img_interp = CloughTocher2DInterpolator(
+                good_pix,
+                good_im,
+                fill_value=0.0,
+            )
+        except QhullError:
+            # too few good pixels, or all of them in a line
+            return None
         interp_image[bad_msk] = img_interp(bad_pix)
 
         return interp_image
-- 
2.43.0


From c9ef23611e1b88dcad5ccefa8c873006c8248b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 02/34] fix: interpolation with no bad pixels left to
 interpolate returns the image

---
 metadetect/interpolate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 33ea832..8ab1aa4 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -160,6 +160,8 @@ def interpolate_image_at_mask(
     bm_frac = nbad/npix
     if bm_frac <= maxfrac and nbad < npix:
         interp_image = image.copy()
+        if nbad == 0:
+            return interp_image
 
         bad_ind, bad_iso, _good_ind = _get_nearby_good_pixels(
             bad_msk, nbad, buff, iso_buff,
@@ -205,6 +207,10 @@ def interpolate_image_at_mask(
                     size=shape, scale=1.0/np.sqrt(weight)
                 )
 
+                if nbad == 0:
+                    # every bad pixel was filled with noise
+                    return interp_image
+
         good_pix = np.array(good_yx).T
         bad_pix = np.array(bad_yx).T
         good_im = interp_image[good_yx[0], good_yx[1]]
-- 
2.43.0


From 9dd673c1093e496994bd7b393656d0b764f53e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 03/34] fix: do not fill mask holes with NaN noise when no
 pixel has weight

---
 metadetect/masking.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metadetect/masking.py b/metadetect/masking.py
index 49d47cc..89d188b 100644
--- a/metadetect/masking.py
+++ b/metadetect/masking.py
@@ -217,13 +217,19 @@ def _apply_mask_interp(
 
                     if not np.all(bad_logic):
                         wmsk = obs.weight > 0
-                        wgt = np.median(obs.weight[wmsk])
+                        if np.any(wmsk):
+                            wgt = np.median(obs.weight[wmsk])
+                            fill_with_noise = fill_isolated_with_noise
+                        else:
+                            # no weight left to set the noise level
+                            wgt = None
+                            fill_with_noise = False
                         interp_image = interpolate_image_at_mask(
                             image=obs.image,
                             bad_msk=bad_logic,
                             maxfrac=1.0,
                             iso_buff=iso_buff,
-                            fill_isolated_with_noise=fill_isolated_with_noise,
+                            fill_isolated_with_noise=fill_with_noise,
                             rng=rng,
                             weight=wgt,
                         )
@@ -232,7 +238,7 @@ def _apply_mask_interp(
                             bad_msk=bad_logic,
                             maxfrac=1.0,
                             iso_buff=iso_buff,
-                            fill_isolated_with_noise=fill_isolated_with_noise,
+                            fill_isolated_with_noise=fill_with_noise,
                             rng=rng,
                             weight=wgt,
                         )
-- 
2.43.0


From 9158f0063a61b2ee33d1425b45c2d59d3735683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:33 +0000
Subject: [PATCH 04/34] fix: stamps that do not overlap the image are empty
 rather than an error

---
 metadetect/detect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 3ddf4f5..94865ae 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -148,6 +148,10 @@ class MEDSInterface(NGMixMEDS):
             obox[1] = im_max
             box[1] = box[1] + diff
 
+        if obox[0] >= obox[1]:
+            # the box does not overlap the image
+            return [0, 0], [0, 0]
+
         return obox, box
 
 
-- 
2.43.0


From 66f3ed34a9889b6c30483474628671aff6e74bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:56 +0000
Subject: [PATCH 05/34] fix: leave shear_bands empty in the output struct when
 it is not given

---
 metadetect/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index abc3661..874c7ae 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -1367,8 +1367,8 @@ def get_wavg_output_struct(nband, model, shear_bands=None):
     data[n("band_flux_flags")] = procflags.NO_ATTEMPT
 
     for name in data.dtype.names:
-        if "flags" not in name:
-            # all are float except flags
+        if "flags" not in name and name != "shear_bands":
+            # all are float except flags and the shear_bands string
             data[name] = np.nan
 
     if shear_bands is not None:
-- 
2.43.0


From d09b8f9257cacf739b0770c63089066443091bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:59 +0000
Subject: [PATCH 06/34] fix: do not write fitter defaults into the caller's
 config

---
 metadetect/metadetect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..7582c99 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -271,10 +271,10 @@ class Metadetect(dict):
                 # we set this defualt
                 # it may be used to set the masked fraction measurement
                 # aperture
-                if "weight" not in cfg:
-                    cfg["weight"] = {}
-                if "fwhm" not in cfg["weight"]:
-                    cfg["weight"]["fwhm"] = 1.2
+                # work on a copy, the config belongs to the caller
+                cfg = dict(cfg)
+                cfg["weight"] = dict(cfg.get("weight", {}))
+                cfg["weight"].setdefault("fwhm", 1.2)
 
                 coadd = cfg.get("coadd", False)
             else:
-- 
2.43.0


From c5135d325448c9082cf338e5ecbf040ca257ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 07/34] fix: apply the segmentation map to stamps of
 color-dependent runs

---
 metadetect/metadetect.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 7582c99..9de5dcf 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -410,7 +410,7 @@ class Metadetect(dict):
 
         _result = {}
         for shear_str, shear_mbobs in mcal_res.items():
-            cat, mbobs_list = self._do_detect(
+            cat, mbobs_list, _ = self._do_detect(
                 shear_mbobs,
                 det_bands,
             )
@@ -438,7 +438,7 @@ class Metadetect(dict):
                 )
 
             # we first detect and get color of each detection
-            cat, mbobs_list = self._do_detect(shear_mbobs, det_bands)
+            cat, mbobs_list, seg = self._do_detect(shear_mbobs, det_bands)
             nocolor_data = fit_mbobs_list_wavg(
                 mbobs_list=mbobs_list,
                 fitter=self._fitters[0],
@@ -469,6 +469,8 @@ class Metadetect(dict):
                     cat['x'][i:i+1],
                     cat['y'][i:i+1],
                     cat['box_size'][i:i+1],
+                    seg=seg,
+                    number=cat['number'][i:i+1],
                 )
                 mbm = _medsifier.get_multiband_meds()
                 mbobs_list = mbm.get_mbobs_list(
@@ -780,7 +782,7 @@ class Metadetect(dict):
         )
         logger.info("detect took %s seconds", time.time() - t0)
 
-        return medsifier.cat, mbobs_list
+        return medsifier.cat, mbobs_list, medsifier.seg
 
     def _get_all_metacal(self, mbobs):
         """
-- 
2.43.0


From 16798453329f6e7fb7515e0a1cdb5942023a27d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 08/34] fix: centre the stamp PSF on each band's own PSF image

---
 metadetect/detect.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadetect/detect.py b/metadetect/detect.py
index 94865ae..294ac58 100644
--- a/metadetect/detect.py
+++ b/metadetect/detect.py
@@ -207,10 +207,17 @@ class MEDSifier(object):
         """
         obslist = self.mbobs[band]
         obs = obslist[0]
+
+        # the psf images can have different sizes in different bands
+        cat = self.cat.copy()
+        psf_cen = (np.array(obs.psf.image.shape) - 1)/2
+        cat['psf_cutout_row'][:, 0] = psf_cen[0]
+        cat['psf_cutout_col'][:, 0] = psf_cen[1]
+
         return MEDSInterface(
             obs=obs,
             seg=self.seg,
-            cat=self.cat,
+            cat=cat,
         )
 
     def _get_image_vars(self):
-- 
2.43.0


From 03ece00fd66ff57477dfa35593b58dc26b3c6716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 09/34] fix: coadd_exposures evaluates the psf at the center of
 the exposure's bounding box, which need not start at the origin

---
 metadetect/lsst/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..d5c14b4 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -474,7 +474,6 @@ def coadd_exposures(exposures):
     --------
     lsst.afw.image.ExposureF
     """
-    import lsst.geom as geom
     import lsst.afw.image as afw_image
 
     wsum = 0.0
@@ -482,8 +481,8 @@ def coadd_exposures(exposures):
     for i, exp in enumerate(exposures):
         shape = exp.image.array.shape
 
-        ycen, xcen = (np.array(shape) - 1) / 2
-        cen = geom.Point2D(xcen, ycen)
+        # the psf is evaluated in the coordinates of the parent image
+        cen = exp.getBBox().getCenter()
 
         psfobj = exp.getPsf()
         this_psfim = psfobj.computeKernelImage(cen).array
-- 
2.43.0


From ed77a23d9b7a7ddd0a175092a10e73d3bde5560c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 10/34] fix: a band with no usable pixels does not turn the
 coadd of exposures into nan

---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index d5c14b4..8469b9e 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -499,6 +499,10 @@ def coadd_exposures(exposures):
         coadd_exp.mask.array |= exp.mask.array
 
         w = np.where(exp.variance.array > 0)
+        if w[0].size == 0:
+            # no usable pixels in this band
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0


From 4c64da1c8219998c817b27b9b3d3e03b51bdeb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 11/34] fix: pixels missing from some exposures are not biased
 low in the coadd of exposures

---
 metadetect/lsst/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 8469b9e..874f95a 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -492,6 +492,7 @@ def coadd_exposures(exposures):
             coadd_exp.image.array[:, :] = 0.0
 
             weight = np.zeros(shape, dtype='f4')
+            image_wsum = np.zeros(shape)
 
             psf_im = this_psfim.copy()
             psf_im[:, :] = 0
@@ -507,6 +508,7 @@ def coadd_exposures(exposures):
         this_weight = 1.0 / medvar
 
         coadd_exp.image.array[w] += exp.image.array[w] * this_weight
+        image_wsum[w] += this_weight
         psf_im += this_psfim * this_weight
 
         weight[w] += 1.0 / exp.variance.array[w]
@@ -517,9 +519,9 @@ def coadd_exposures(exposures):
         logger.info('found wsum <= 0')
         return None
 
-    fac = 1.0 / wsum
-
-    coadd_exp.image.array[:, :] *= fac
+    # pixels may be missing from some of the exposures
+    w = np.where(image_wsum > 0)
+    coadd_exp.image.array[w] /= image_wsum[w]
 
     # the psf is always normalized
     psf_im *= 1.0 / psf_im.sum()
-- 
2.43.0


From 24fe67012f0da9c1e96ac1cb3c21e37bccce6178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 12/34] fix: MBObsExtractor.get_stamp uses the bands of its
 exposure

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From 48cd719e83c1475e4a8874a05f8cac2ee57ce2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 13/34] fix: ModelSubtractor.get_bbox without a stamp size
 returns the footprint's box

---
 metadetect/lsst/model_subtractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..cffc1db 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,8 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
-            bbox = fp.getBBox()
+            bbox = self.footprints[source_id].getBBox()
 
         return bbox
 
-- 
2.43.0


From 4bc2b8708c57f896e242616664b602c46f83c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 14/34] fix: ModelSubtractor works for a single band

---
 metadetect/lsst/model_subtractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index cffc1db..9fb7805 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -439,6 +439,9 @@ class ModelSubtractor(object):
                     bbox = footprint.getBBox()
 
                     heavy = scarletModelToHeavy(source=scl_source, blend=blend)
+                    if len(bands) == 1:
+                        # a plain HeavyFootprint rather than multiband
+                        heavy = {bands[0]: heavy}
 
                     for band in bands:
                         heavy[band].subtractFrom(self.mbexp[band].image[bbox])
-- 
2.43.0


From 67df42b8f7bc123486af2f915310d2ee1940068e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 15/34] fix: ModelSubtractor.get_model honors stamp_size and
 clip

---
 metadetect/lsst/model_subtractor.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9fb7805..738073b 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -329,9 +329,22 @@ class ModelSubtractor(object):
 
         heavy = heavies[source_id]
 
+        if stamp_size is not None:
+            bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
+        else:
+            bbox = None
+
         exposures = []
         for band in self.bands:
             im = heavy[band].extractImage()
+            if bbox is not None:
+                model_im = im
+                im = afw_image.ImageF(bbox)
+                im.array[:, :] = 0
+                overlap = model_im.getBBox()
+                overlap.clip(bbox)
+                if not overlap.isEmpty():
+                    im[overlap].array[:, :] = model_im[overlap].array
             masked_im = afw_image.MaskedImageF(im.clone())
             exp = afw_image.ExposureF(masked_im)
             exp.setFilter(afw_image.FilterLabel(band))
-- 
2.43.0


From 11e5e1c247887a06c0ac632b290e725e57f5e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 16/34] fix: ModelSubtractor.get_mbobs of type model returns a
 MultiBandObsList

---
 metadetect/lsst/model_subtractor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 738073b..df3353a 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -272,12 +272,15 @@ class ModelSubtractor(object):
         )
         import ngmix
 
-        if type == 'model':
-            return self.get_model(source_id, stamp_size=stamp_size, clip=clip)
-
         self.check_source_id(source_id)
 
-        bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
+        if type == 'model':
+            model = self.get_model(
+                source_id, stamp_size=stamp_size, clip=clip,
+            )
+            bbox = model.getBBox()
+        else:
+            bbox = self.get_bbox(source_id, stamp_size=stamp_size, clip=clip)
 
         if type == 'original':
             mbexp = self.orig
@@ -289,6 +292,11 @@ class ModelSubtractor(object):
 
         for band in mbexp.bands:
             subexp = mbexp[band][bbox]
+            if type == 'model':
+                # the model with the mask, variance, psf and wcs of the data
+                subexp = afw_image.ExposureF(subexp, deep=True)
+                subexp.image.array[:, :] = model[band].image.array
+
             obs = util.extract_obs(exp=subexp, source=source)
 
             obslist = ngmix.ObsList(meta={'band': band})
-- 
2.43.0


From eb72b47f9d36db9165d407ddee076fbe103a146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 17/34] fix: measure_weighted_mfrac cuts the stamp with rows
 along y and columns along x

---
 metadetect/lsst/metadetect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..dc13fca 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -408,7 +408,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 32c85552634bf2110c316a8fcffd9127a06ed138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 18/34] fix: fit_original_psfs_mbexp sets flags rather than
 raising when a psf fit fails

---
 metadetect/lsst/metadetect.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index dc13fca..d46f235 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -631,18 +631,21 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
 
         g1, g2 = ngmix.shape.e1e2_to_g1g2(e1=e1, e2=e2)
 
-    except (BootPSFFailure, GMixRangeError):
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
+
+    except (BootPSFFailure, GMixRangeError, util.MissingDataError):
         flags = procflags.PSF_FAILURE
+        navg = 0
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
 
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
-
     return {
         'flags': flags,
         'navg': navg,
-- 
2.43.0


From 0a0755ba2bb60a8918c4baa5c9de25614b85ff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 19/34] fix: the masked fraction exposures are optional in
 get_mfrac_mbexp, as documented

---
 metadetect/lsst/metadetect.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index d46f235..98d3d69 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -490,6 +490,9 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
 
     wsum = 0.0
 
+    if mfrac_mbexp is None:
+        mfrac_mbexp = [None]*len(mbexp)
+
     mfrac = None
     for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
         varray = exp.variance.array
@@ -503,10 +506,15 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wgts.append(wgt)
         wsum += wgt
 
+        if mfrac_exp is None:
+            mfrac_image = np.zeros(varray.shape)
+        else:
+            mfrac_image = mfrac_exp.image.array
+
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From 5c3e9490f67eac049133a2c9e800eb2f0b0b14b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 20/34] fix: measure takes the bmask of the source itself, not
 of another catalogue entry

---
 metadetect/lsst/measure.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..a9c7f09 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,14 +361,15 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
+    # only the children are measured
+    bmasks = get_bmasks(sources=extractor.children(), exposure=detexp)
+
     for i, source in enumerate(extractor.children()):
 
         # perform basic measurements using stack algorithms
-- 
2.43.0


From fd90a1de90949ce8181bf9d04370cfba16b14a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 21/34] fix: DetectAndDeblendTask.run returns three values when
 there is nothing to detect on

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index a9c7f09..8bd18b7 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From e5051802c8010b47a79fd74a9674ca4af965c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 22/34] fix: sources for which the psf cannot be constructed
 are flagged rather than ending the run

---
 metadetect/lsst/measure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 8bd18b7..d21c3b9 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -28,6 +28,7 @@ from lsst.pex.exceptions import LengthError
 from ..procflags import (
     EDGE_HIT,
     ZERO_WEIGHTS,
+    NO_DATA,
     NO_ATTEMPT,
 )
 from ..fitting import (
@@ -401,6 +402,10 @@ def measure(
             # across the stamp
             LOG.info('%s', err)
             stamp_flags = ZERO_WEIGHTS
+        except util.MissingDataError as err:
+            # the psf could not be constructed at this location
+            LOG.info('%s', err)
+            stamp_flags = NO_DATA
 
         if stamp_flags != 0:
 
-- 
2.43.0


From 6bbb58e510104c57cbc1615c165305d4def4d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 23/34] fix: sources without a centroid get the sky position of
 their peak

---
 metadetect/lsst/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index d21c3b9..70f327b 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -659,8 +659,6 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
 
     orig_cen = source.getCentroid()
 
-    skypos = wcs.pixelToSky(orig_cen)
-
     peak = source.getFootprint().getPeaks()[0]
     peak_loc = peak.getI()
 
@@ -673,6 +671,8 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
             orig_cen.getY() - peak_loc.getY(),
         )
 
+    skypos = wcs.pixelToSky(orig_cen)
+
     output['stamp_size'] = stamp_size
     output['row0'] = exp_bbox.getBeginY()
     output['col0'] = exp_bbox.getBeginX()
-- 
2.43.0


From 2449d5688edca5f4a6b9f3344f431b070883ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 24/34] fix: override_config sets the stamp_size

---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 874f95a..16f5bb4 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1234,10 +1234,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From 96c507e8c6951aeb9b9363df0229d101fbe49d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 25/34] fix: sky subtraction does not modify the config of the
 caller

---
 metadetect/lsst/skysub.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..519df59 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +144,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 8a555eb6eaf154141d89673c9d1a738aaa98bfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 26/34] fix: get_detect_and_deblend_task does not modify the
 config of the caller

---
 metadetect/lsst/measure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index 70f327b..0d5f20e 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 import logging
 import warnings
 import numpy as np
@@ -291,7 +292,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
-- 
2.43.0


From 67d9304cca3833f27d66a6fe523d9c034246a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 27/34] fix: measure_weighted_mfrac gives 1.0 for positions
 left of or above the image by more than the stamp

---
 metadetect/lsst/metadetect.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 98d3d69..cc4cef0 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -407,6 +407,11 @@ def measure_weighted_mfrac(
             xend = nx
         if yend > ny:
             yend = ny
+        # negative ends would be taken as relative to the far edge
+        if xend < 0:
+            xend = 0
+        if yend < 0:
+            yend = 0
 
         sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
-- 
2.43.0


From f45d63fb930bd931e5c4cbc25a4b236f44ae881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 28/34] fix: run_photometry uses the configured deblender

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..dd997f0 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -69,6 +69,7 @@ def run_photometry(
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
         rng=rng,
+        deblender=config['deblender'],
     )
     sources, detexp, model_data = dbtask.run(
         mbexp=mbexp,
-- 
2.43.0


From 99fbc16a140a582f73250d583673981b529dfb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 29/34] fix: the aperture of measure_weighted_mfrac is in
 arcsec and its box in pixels

---
 metadetect/lsst/metadetect.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index cc4cef0..97d41be 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -387,7 +387,9 @@ def measure_weighted_mfrac(
         'gauss',
     )
     sigma = ngmix.moments.fwhm_to_sigma(fwhm)
-    box_rad = int(round(sigma * 5))
+    # sigma is in arcsec and the box in pixels
+    maxrad = sigma * 5
+    box_rad = int(np.ceil(maxrad / jac.get_scale()))
 
     mfracs = []
     for i in range(x.shape[0]):
@@ -426,11 +428,14 @@ def measure_weighted_mfrac(
                 jacobian=this_jac,
             )
 
-            stats = gauss_wgt.get_weighted_sums(obs, maxrad=box_rad)
+            stats = gauss_wgt.get_weighted_sums(obs, maxrad=maxrad)
 
             # this is the weighted average in the image using the
             # Gaussian as the weight.
-            mfracs.append(stats["sums"][5] / stats["wsum"])
+            if stats["wsum"] > 0:
+                mfracs.append(stats["sums"][5] / stats["wsum"])
+            else:
+                mfracs.append(1.0)
 
     return np.array(mfracs)
 
-- 
2.43.0


From 5c41aa85e1bb6cd790198968c14d7d80a2e86cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 30/34] fix: shear bands beyond those of single-band data are
 refused

---
 metadetect/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/fitting.py b/metadetect/fitting.py
index 874c7ae..9d84b01 100644
--- a/metadetect/fitting.py
+++ b/metadetect/fitting.py
@@ -520,7 +520,7 @@ def make_coadd_obs(mbobs, shear_bands=None):
     # if we have one input band, then simply
     # return if if the data is consistent
     if nbands == 1:
-        if shear_bands[0] == 0:
+        if set(shear_bands) == {0}:
             return mbobs[0][0], flags
         else:
             flags |= procflags.INCONSISTENT_BANDS
-- 
2.43.0


From 95629861397be84563224687bf0fd1b15718740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 31/34] fix: or-mask values of positions off the image are
 those of the nearest pixel, not of the far side

---
 metadetect/lsst/metadetect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 97d41be..e4177c7 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -450,6 +450,10 @@ def add_ormask(ormask, res):
         local_row = int(np.floor(row_diff + 0.5))
         local_col = int(np.floor(col_diff + 0.5))
 
+        # centroids can be off the image; use the nearest pixel
+        local_row = min(max(local_row, 0), ormask.shape[0] - 1)
+        local_col = min(max(local_col, 0), ormask.shape[1] - 1)
+
         res['ormask'][i] = ormask[local_row, local_col]
 
 
-- 
2.43.0


From 8dbfff156b7ac4d811eded3160a4eec7928a4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 32/34] fix: the recorded sky is all that was subtracted also
 when a later detection fails

---
 metadetect/lsst/skysub.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 519df59..90633ae 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -67,14 +67,15 @@ class IterateDetectionSkySubTask(Task):
             sky_meas = 0.0
             for i in range(self.config.niter):
                 self.back.run(exposure)
-                result = self.detect.run(table, exposure)
 
                 sky_meas += exposure.getMetadata()['BGMEAN']
 
-            meta = exposure.getMetadata()
+                # this is the overall sky we subtracted in all iterations so
+                # far, which stays subtracted if the detection fails
+                meta = exposure.getMetadata()
+                meta['BGMEAN'] = sky_meas
 
-            # this is the overall sky we subtracted in all iterations
-            meta['BGMEAN'] = sky_meas
+                result = self.detect.run(table, exposure)
         except LSSTRuntimeError as err:
             err = str(err).replace('lsst::pex::exceptions::RuntimeError:', '')
             self.detect.log.warn(err)
-- 
2.43.0


From 4eda42580991a4c7b77d662f59483635cf9062e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 33/34] fix: masked fractions of stamps without weight are
 measured, not set to one

---
 metadetect/mfrac.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadetect/mfrac.py b/metadetect/mfrac.py
index 473e2c7..5be9623 100644
--- a/metadetect/mfrac.py
+++ b/metadetect/mfrac.py
@@ -50,6 +50,8 @@ def measure_mfrac(
 
     obs = obs.copy()
     obs.set_image(mfrac)
+    # the weights do not matter, so stamps without any are measured too
+    obs.set_weight(np.ones_like(mfrac))
 
     gauss_wgt = ngmix.GMixModel(
         [0, 0, 0, 0, ngmix.moments.fwhm_to_T(fwhm), 1],
-- 
2.43.0


From 2398cc0abf8710c9c3ad0520ce7b2e6176de1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:09 +0000
Subject: [PATCH 34/34] fix: get_config copies the values of the request, so a
 result can be edited

---
 metadetect/lsst/configs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/configs.py b/metadetect/lsst/configs.py
index 23dc21a..fedfd6c 100644
--- a/metadetect/lsst/configs.py
+++ b/metadetect/lsst/configs.py
@@ -27,9 +27,9 @@ def get_config(config=None):
 
             # deal with sub-configs
             if key in ['detect', 'metacal', 'pgauss']:
-                new_config[key].update(config[key])
+                new_config[key].update(deepcopy(config[key]))
             else:
-                new_config[key] = config[key]
+                new_config[key] = deepcopy(config[key])
 
     # do some verification
     # note we allow ngmix.metacal.get_all_metacal to do its own verification
-- 
2.43.0

