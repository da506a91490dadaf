From f7150fe1251ce5c2f23fb4c75771973c32f96923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 01/20] fix: zernike modes of odd azimuthal order had the wrong
 sign

MathWorld eq. 9 (the formula cited) has (-1)^((n-m)/2); (-1)^((n+m)/2) flips
every mode with odd m, so that R_n^m(1) was -1 instead of 1.
---
 pyotf/zernike.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 0b182ad..4fc2570 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -292,10 +292,9 @@ def _radial_zernike(r, n, m):
     # for the radial part m is always positive
     m = abs(m)
     # calculate the coefs
-    coef1 = (n + m) // 2
     coef2 = (n - m) // 2
     jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)
-    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
+    rad_zern[valid_points] = (-1) ** coef2 * rprime ** m * jacobi
     return rad_zern
 
 
-- 
2.43.0


From 6cd324d54b8bca9d00038c70bac76b78ee7120cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 02/20] fix: easy_ifft did not invert easy_fft along odd sized
 axes

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 37ef17e..e2be33b 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -161,7 +161,7 @@ def easy_fft(data, axes=None):
 
 def easy_ifft(data, axes=None):
     """Inverse FFT that includes shifting."""
-    return ifftshift(ifftn(fftshift(data, axes=axes), axes=axes), axes=axes)
+    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)
 
 
 def cart2pol(y, x):
-- 
2.43.0


From 57eb73f3358bd5e5fd6a2fb7076eb49078607fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 03/20] fix: remove_bg wrapped around for unsigned data and an
 integer multiplier

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index e2be33b..6ab3941 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -247,7 +247,7 @@ def remove_bg(data, multiplier=1.5):
     # should add bit for floats, that will find the mode using the hist
     # function bincounts with num bins specified
     mode = np.bincount(data.ravel()).argmax()
-    return data - multiplier * mode
+    return data - float(multiplier) * mode
 
 
 def psqrt(data):
-- 
2.43.0


From 89330b19f5436aedf938175c8b107a80cea96273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 04/20] fix: radial_profile used np.int, which numpy removed in
 1.24

---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 6ab3941..b0551e7 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -396,7 +396,7 @@ def radial_profile(data, center=None, binsize=1.0):
     idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
     r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
     # convert to int
-    r = np.round(r / binsize).astype(np.int)
+    r = np.round(r / binsize).astype(int)
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-- 
2.43.0


From 2167fe545bf207d2c08fc8cccb57a694829d81ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 05/20] fix: degrees2noll returned another mode's index when
 |m| > n

---
 pyotf/zernike.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/zernike.py b/pyotf/zernike.py
index 4fc2570..705f6f7 100644
--- a/pyotf/zernike.py
+++ b/pyotf/zernike.py
@@ -193,6 +193,8 @@ def degrees2noll(n, m):
         raise ValueError("Azimuthal degree is not integer, input = {m}")
     if ((n - m) % 2).any():
         raise ValueError("The difference between radial and azimuthal degree isn't mod 2")
+    if (n < abs(m)).any():
+        raise ValueError("n must always be greater or equal to m")
     # do the mapping
     p = (m + n * (n + 2)) / 2
     noll = noll_mapping[p.astype(int)]
-- 
2.43.0


From cb570f1ea3ac7f6e6459b41c0c1506b13f6488f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 06/20] fix: BasePSF accepted a zero or negative res

---
 pyotf/otf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index d2a2915..698bbe1 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -143,6 +143,9 @@ class BasePSF(object):
 
     @res.setter
     def res(self, value):
+        # make sure res is positive
+        if not value > 0:
+            raise ValueError("res must be positive")
         # max_val is the abbe limit, but for an accurate simulation
         # the pixel size must be smaller than half this number
         # thinking in terms of the convolution that is implicitly
-- 
2.43.0


From cac6f9f728a05e9c7f9a6ded21191864cbc118b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 07/20] fix: default zrange was off centre for odd zsize

zsize=1 gave a defocused plane at -zres and the focal plane was not at
zsize // 2, where the Fourier transforms and the plots expect it.
---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 698bbe1..a912eab 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -292,7 +292,7 @@ class HanserPSF(BasePSF):
 
     def _gen_zrange(self):
         """Generate the zrange from zsize and zres."""
-        self.zrange = (np.arange(self.zsize) - (self.zsize + 1) // 2) * self.zres
+        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
 
     @BasePSF.zsize.setter
     def zsize(self, value):
-- 
2.43.0


From 24563dd8244a82a0ed8589636fceca91abe4cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 08/20] fix: prep_data_for_PR's crop branch did not clip at
 zero or honour xysize

A cropped stack kept negative pixels, an odd axis was cropped off centre, and
a stack with ny < xysize < nx came back with shape (nz, ny, xysize).
---
 pyotf/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index b0551e7..1472666 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -287,9 +287,10 @@ def prep_data_for_PR(data, xysize=None, multiplier=1.5):
         # pad data out to the proper size, pad with zeros
         pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
     else:
-        # if need to crop, crop and center and return
-        my_slice = slice_maker(((ny + 1) // 2, (nx + 1) // 2), xysize)
-        return center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        # if need to crop, center and crop, an axis that's too short still needs to be padded
+        my_slice = slice_maker((ny // 2, nx // 2), xysize)
+        crop_data = center_data(data_without_bg)[(Ellipsis,) + my_slice]
+        pad_data = fft_pad(crop_data, (nz, xysize, xysize), mode="constant")
     # return centered data
     return np.fmax(0, pad_data)
 
-- 
2.43.0


From 208d577a2e3ea5f8c554c7359667e49f8276ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 09/20] fix: SIM excitation pattern was a pixel off the PSF for
 odd sizes

---
 pyotf/microscope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index a845157..e92f892 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -320,11 +320,11 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         """
         # centered coordinate system.
         x = (
-            np.arange(self.psf_params["size"]) - (self.psf_params["size"] + 1) // 2
+            np.arange(self.psf_params["size"]) - self.psf_params["size"] // 2
         ) * self.psf_params["res"]
 
         z = (
-            np.arange(self.psf_params["zsize"]) - (self.psf_params["zsize"] + 1) // 2
+            np.arange(self.psf_params["zsize"]) - self.psf_params["zsize"] // 2
         ) * self.psf_params["zres"]
 
         # open grid
-- 
2.43.0


From 285a8a5e5a3e3f9ed63f4e76cad151ea233330b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 10/20] fix: SIM microscopes rejected wiener=None and kept a
 stale PSF

wiener=None is documented, but raised a TypeError, and assigning wiener or
orientations did not invalidate the cached PSF and OTF.
---
 pyotf/microscope.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index e92f892..8951b56 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -299,8 +299,28 @@ class BaseSIMMicroscope(WidefieldMicroscope):
         self.orientations = orientations
 
         self.wiener = wiener
-        if self.wiener < 0:
-            raise ValueError(f"self.wiener is {self.wiener:} which should be greater than zero")
+
+    @property
+    def orientations(self):
+        """Orientation angles of the excitation."""
+        return self._orientations
+
+    @orientations.setter
+    def orientations(self, value):
+        self._orientations = value
+        self._attribute_changed()
+
+    @property
+    def wiener(self):
+        """Wiener parameter, None means no deconvolution."""
+        return self._wiener
+
+    @wiener.setter
+    def wiener(self, value):
+        if value is not None and value < 0:
+            raise ValueError(f"wiener is {value} which should be greater than or equal to zero")
+        self._wiener = value
+        self._attribute_changed()
 
     def __repr__(self):
         """Represent a SIM microscope."""
-- 
2.43.0


From d66fbc0f13c09e75a7e10484eb832922e157a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 11/20] fix: ConfocalMicroscope.wl_exc was not connected to the
 excitation model

---
 pyotf/microscope.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index 8951b56..b128a0e 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -191,7 +191,15 @@ class ConfocalMicroscope(WidefieldMicroscope):
         doc="Size of the pinhole (in airy units relative to emission wavelength",
     )
 
-    wl_exc = NumericProperty(attr="_wl_exc", vartype=float, doc="The excitation wavelength")
+    @property
+    def wl_exc(self):
+        """Excitation wavelength."""
+        return self.model_exc.wl
+
+    @wl_exc.setter
+    def wl_exc(self, value):
+        self.model_exc.wl = value
+        self._attribute_changed()
 
     def __init__(self, *, wl_exc, pinhole_size, **kwargs):
         super().__init__(**kwargs)
@@ -199,7 +207,7 @@ class ConfocalMicroscope(WidefieldMicroscope):
 
         # make the emission PSF
         self.model_exc = copy.deepcopy(self.model)
-        self.model_exc.wl = wl_exc
+        self.wl_exc = wl_exc
 
     def __repr__(self):
         """Represent a confocal microscope."""
-- 
2.43.0


From adb4a3443d479762bfff89b94511fb9510f4ccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 12/20] fix: fit_to_zernikes crashed for a single mode

---
 pyotf/phaseretrieval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index ec7c637..6dcd4f6 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -194,6 +194,8 @@ class PhaseRetrievalResult(object):
         r = r / (self.na / self.wl)
         # generate zernikes
         zerns = zernike(r, theta, np.arange(1, num_zerns + 1))
+        # zernike squeezes the leading axis if there's only one mode
+        zerns = zerns.reshape((num_zerns,) + r.shape)
         mag_coefs = _fit_to_zerns(self.mag, zerns, r)
         phase_coefs = _fit_to_zerns(self.phase, zerns, r)
         self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
-- 
2.43.0


From 8312dbb4946b96be24317fdad91fb41eaded4a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 13/20] fix: the XZ and YZ panels of psf_plot and otf_plot were
 swapped

---
 pyotf/display.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyotf/display.py b/pyotf/display.py
index a717526..6ff2c60 100644
--- a/pyotf/display.py
+++ b/pyotf/display.py
@@ -150,12 +150,12 @@ def psf_plot(
     # do plotting
     if mip:
         grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf.max(1).T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf.max(2), **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
     else:
         grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-        grid[2].imshow(psf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-        grid[1].imshow(psf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
@@ -238,8 +238,8 @@ def otf_plot(
     kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]
 
     grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
-    grid[2].imshow(otf[:, ny // 2, :].T, **dkwargs, extent=(*kz, *ky))
-    grid[1].imshow(otf[:, :, nx // 2], **dkwargs, extent=(*kx, *kz))
+    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
+    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
     grid[0].axis("off")
 
     fd = {"fontweight": "bold"}
-- 
2.43.0


From 4f25e2d91461864c15f15da828cde2cb8d2ae5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 14/20] fix: HanserPSF shared its zrange with the caller's
 array

A 0-d array was reshaped in place, and later changes to the caller's array
silently changed the model without invalidating its cached PSF.
---
 pyotf/otf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index a912eab..4dca324 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -322,7 +322,8 @@ class HanserPSF(BasePSF):
 
     @zrange.setter
     def zrange(self, value):
-        self._zrange = np.asarray(value)
+        # copy, so that the model doesn't share (or reshape) the caller's array
+        self._zrange = np.array(value)
         # check if passed value is scalar
         if not self._zrange.shape:
             # convert to array for later multiplications
-- 
2.43.0


From c81aa7cd7bc01a5d9f177206ce17cfd199391a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 15/20] fix: SheppardPSF(dual=True) was NaN with vectorial
 corrections

The apodization took the square root of, and the polarization vectors divided
by, terms in s that are negative or zero for the opposing objective.
---
 pyotf/otf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 4dca324..88b0d04 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -539,6 +539,8 @@ class SheppardPSF(BasePSF):
         kxx, kyy, kzz = self.kxx, self.kyy, self.kzz
         # generate direction cosines
         m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)
+        # the opposing objective (s < 0, see `dual`) is the mirror image of the first
+        mirror, s = np.sign(s), abs(s)
         # apply a given imaging condition
         if self.condition == "sine":
             a = 1.0 / np.sqrt(s)
@@ -552,8 +554,8 @@ class SheppardPSF(BasePSF):
         if self.vec_corr != "none":
             plist = []
             if self.vec_corr == "z" or self.vec_corr == "total":
-                plist.append(-m)  # Pzx
-                plist.append(-n)  # Pzy
+                plist.append(-m * mirror)  # Pzx
+                plist.append(-n * mirror)  # Pzy
             if self.vec_corr == "y" or self.vec_corr == "total":
                 plist.append(-n * m / (1 + s))  # Pyx
                 plist.append(1 - n ** 2 / (1 + s))  # Pyy
-- 
2.43.0


From 2ed0f3f89593441a7884c857b045fc9e722d220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 16/20] fix: SheppardPSF ignored the imaging condition without
 vectorial corrections

---
 pyotf/otf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index 88b0d04..e75b0eb 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -575,7 +575,7 @@ class SheppardPSF(BasePSF):
             # otf_sub = self._gen_radsym_otf()
             # otf = otf_sub[np.newaxis]
             otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
-            otf_sub[self.valid_points] = 1.0
+            otf_sub[self.valid_points] = a
             otf = otf_sub[np.newaxis]
         # we're already calculating the OTF, so we just need to shift it into
         # the right place.
-- 
2.43.0


From 640485ae5d386b7c0e434787f730bdb0f60749e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 17/20] fix: square the data of radial_profile as floats

The squares of 8 and 16 bit integers wrap around, which made the deviation of an ordinary camera image nan or wrong.
---
 pyotf/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/utils.py b/pyotf/utils.py
index 1472666..3bf7fc6 100644
--- a/pyotf/utils.py
+++ b/pyotf/utils.py
@@ -401,7 +401,7 @@ def radial_profile(data, center=None, binsize=1.0):
     # sum the values at equal r
     tbin = np.bincount(r.ravel(), data.ravel())
     # sum the squares at equal r
-    tbin2 = np.bincount(r.ravel(), (data ** 2).ravel())
+    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
     # find how many equal r's there are
     nr = np.bincount(r.ravel())
     # calculate the radial mean
-- 
2.43.0


From 4f0af13f0bee30487c1a11a0c4198b416a39f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:13 +0000
Subject: [PATCH 18/20] fix: aberrations of a model with a single pixel keep
 its shape

---
 pyotf/otf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyotf/otf.py b/pyotf/otf.py
index e75b0eb..30540b5 100644
--- a/pyotf/otf.py
+++ b/pyotf/otf.py
@@ -631,6 +631,8 @@ def apply_aberration(model, mcoefs, pcoefs):
     # diffraction limit)
     r = kr * model.wl / model.na
     zerns = zernike(r, theta, np.arange(len(mcoefs)) + 1)
+    # zernike squeezes axes of length one
+    zerns = zerns.reshape((len(mcoefs),) + r.shape)
 
     pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
     pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
-- 
2.43.0


From 9bf2166bab213b8f2fabb53a9253306bb1cadb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:20 +0000
Subject: [PATCH 19/20] fix: phase retrieval of a single pixel keeps its shape

---
 pyotf/phaseretrieval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyotf/phaseretrieval.py b/pyotf/phaseretrieval.py
index 6dcd4f6..3efed2b 100644
--- a/pyotf/phaseretrieval.py
+++ b/pyotf/phaseretrieval.py
@@ -117,7 +117,7 @@ def retrieve_phase(data, params, max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, ph
         # retrieve new pupil
         old_pupil = new_pupil
         # keep phase
-        phase = np.angle(model.PSFa.squeeze())
+        phase = np.angle(model.PSFa[0])
         # replace magnitude with experimentally measured mag
         new_psf = mag * np.exp(1j * phase)
         # generate the new pupils
-- 
2.43.0


From 6159e44663cdff52cc985d3ca609ce10533a4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:20 +0000
Subject: [PATCH 20/20] fix: microscope plots use the axial step of the model

---
 pyotf/microscope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyotf/microscope.py b/pyotf/microscope.py
index b128a0e..6e9de0d 100644
--- a/pyotf/microscope.py
+++ b/pyotf/microscope.py
@@ -138,13 +138,13 @@ class WidefieldMicroscope(object):
         axial_extent = (
             self.model.wl
             / (self.model.ni - np.sqrt(self.model.ni ** 2 - self.model.na ** 2))
-            / self.pixel_size
+            / self.model.zres
             * 16
         )
 
         max_loc = np.unravel_index(self.PSF.argmax(), self.PSF.shape)
         crop = slice_maker(max_loc, (axial_extent, lateral_extent, lateral_extent))
-        return psf_plot(self.PSF[crop], zres=self.pixel_size, res=self.pixel_size, **kwargs)
+        return psf_plot(self.PSF[crop], zres=self.model.zres, res=self.pixel_size, **kwargs)
 
     def plot_otf(self, **kwargs):
         """Plot the intensity OTF.
@@ -164,7 +164,7 @@ class WidefieldMicroscope(object):
             na=self.model.na,
             ni=self.model.ni,
             wl=self.model.wl,
-            zres=self.pixel_size,
+            zres=self.model.zres,
             res=self.pixel_size,
             **dkwargs,
         )
-- 
2.43.0

