From d06c096ce3bb5cdf0604892bf1acdf79fb46e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 01/47] fix: model mixture copies keep the current gaussians,
 not the constructor pars

---
 ngmix/gmix/gmix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..3b11543 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -934,6 +934,7 @@ class GMixModel(GMix):
         Get a new GMix with the same parameters
         """
         gmix = GMixModel(self._pars, self._model_name)
+        gmix._data[:] = self._data[:]
         return gmix
 
     def set_cen(self, row, col):
@@ -976,7 +977,9 @@ class GMixCM(GMixModel):
         """
         Get a new GMix with the same parameters
         """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix = GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix._data[:] = self._data[:]
+        return gmix
 
     def _fill(self, pars):
         """
@@ -1061,6 +1064,7 @@ class GMixCoellip(GMixModel):
         Get a new GMix with the same parameters
         """
         gmix = GMixCoellip(self._pars)
+        gmix._data[:] = self._data[:]
         return gmix
 
 
-- 
2.43.0


From dc33efc742b992b93aabc8f03827a915e3ac53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 02/47] fix: an invalid gaussian is reported on every
 evaluation, not only the first

---
 ngmix/gmix/gmix_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..096b605 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,10 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # the first gaussian is used to tell if the norms of the mixture are set, so
+    # it must be done last
+    for i in range(gmix.size - 1, -1, -1):
+        gauss2d_set_norm(gmix[i])
 
 
 @njit
-- 
2.43.0


From 2e8d2a023c4a60d18a67d43d936ca264869e4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:03 +0000
Subject: [PATCH 03/47] fix: make_round recalculates the determinants

---
 ngmix/gmix/gmix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 3b11543..3b5f32b 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -581,6 +581,8 @@ class GMix(object):
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
 
+        gdata["det"] = gdata["irr"] * gdata["icc"]
+
         return gm
 
     def _fill_image(self, image, jacobian=None, fast_exp=False):
-- 
2.43.0


From a1842b8a99a2478282b7fbc660e969341c7d1ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 04/47] fix: do not write pixels with NaN weight past the end
 of the pixel array

---
 ngmix/pixels/pixels_nb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/pixels/pixels_nb.py b/ngmix/pixels/pixels_nb.py
index ea7779f..eb04a69 100644
--- a/ngmix/pixels/pixels_nb.py
+++ b/ngmix/pixels/pixels_nb.py
@@ -34,7 +34,7 @@ def fill_pixels(pixels, image, weight, jacob, ignore_zero_weight=True):
         for col in range(ncol):
 
             ivar = weight[row, col]
-            if ignore_zero_weight and ivar <= 0.0:
+            if ignore_zero_weight and not (ivar > 0.0):
                 continue
 
             pixel = pixels[ipixel]
-- 
2.43.0


From 9825235df2208abc0f2f70960314e57ed40728d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 05/47] fix: Observation equality looks at what both
 observations have, and at shapes

---
 ngmix/observation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..ac3cc92 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -763,13 +763,17 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
-                    if not np.all(self_data == obs_data):
+                    if atype == 'array':
+                        same = np.array_equal(self_data, obs_data)
+                    else:
+                        same = self_data == obs_data
+                    if not same:
                         return False
                 else:
                     return False
-- 
2.43.0


From f53bca74de196e7df01d816877717de7a574c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:20 +0000
Subject: [PATCH 06/47] fix: mixtures with different numbers of gaussians are
 not equal

---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 3b5f32b..a2854d4 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -437,6 +437,9 @@ class GMix(object):
         self_data = self.get_data()
         gm_data = gm.get_data()
 
+        if self_data.size != gm_data.size:
+            return False
+
         for n in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
             if not np.all(self_data[n] == gm_data[n]):
                 return False
-- 
2.43.0


From dfb9c909afa95abe6bfa95a5bd111aeb5a9cbe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 07/47] fix: GaussMom removes the pixel area from every flux in
 the result, also when flagged

---
 ngmix/gaussmom.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..82feb1b 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -55,21 +55,22 @@ class GaussMom(object):
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
         # units
         area = obs.jacobian.area
         fac = 1/area
         res['flux'] *= fac
         res['flux_err'] *= fac
-        res['pars'][5] *= fac
+        if 'pars' in res:
+            res['pars'][5] *= fac
         res["sums"] *= fac
         res["sums_cov"] *= fac**2
         res["sums_norm"] *= fac
         res["wsum"] *= fac
         res["sums_err"] *= fac
+        for name in ['MF', 'M00']:
+            res[name] *= fac
+            res[name + '_err'] *= fac
         return res
 
     def _set_mompars(self):
-- 
2.43.0


From a266012d17a8d32060a5b50e666cf2ee47dc45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 08/47] fix: AdmomFitter does not modify the guess mixture it
 is sent

---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..e7c5df7 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the mixture is modified in place below
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From 9b8e778b447980380664aceb51d5662254f9f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 09/47] fix: make_kobs does not write in the metadata of the
 input observations

---
 ngmix/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index ac3cc92..544e440 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1558,7 +1558,8 @@ def make_kobs(mb_obs, interp=DEFAULT_XINTERP):
             else:
                 psf_kobs = None
 
-            meta = iidict['meta']
+            meta = {}
+            meta.update(iidict['meta'])
             meta['realspace_gsimage'] = iidict['realspace_gsimage']
             meta['scale'] = iidict['scale']
             kobs = KObservation(
-- 
2.43.0


From da0b773fe9d80f942e272ae01c99208dd0238429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 10/47] fix: metacal psf cache does not mix dilated psfs with
 drawn psf images

---
 ngmix/metacal/metacal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..270c9b6 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,7 +305,8 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
+        # get_target_psf uses the plain key for the drawn image
+        key = 'dilate-' + self._get_psf_key(shear, doshear)
         if key not in self._psf_cache:
             self._psf_cache[key] = _do_dilate(psf, shear)
 
-- 
2.43.0


From 4761648f9a4de82a7f1e061f5708fb6e2f2aacc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 11/47] fix: CenPrior.get_prob_array works for arrays

---
 ngmix/priors/multivariate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/multivariate.py b/ngmix/priors/multivariate.py
index 755eea7..276fddd 100644
--- a/ngmix/priors/multivariate.py
+++ b/ngmix/priors/multivariate.py
@@ -74,7 +74,7 @@ class CenPrior(PriorBase):
         """
         probability at the specified point
         """
-        from math import exp
+        from numpy import exp
 
         d1 = self.cen1 - x1
         d2 = self.cen2 - x2
-- 
2.43.0


From 2b5d8a1b41c784a5f7d437ee20b982a269d3fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 12/47] fix: GPriorBA finds the maximum used for sampling again
 when sigma changes

---
 ngmix/priors/shape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 37d742d..f419849 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -517,6 +517,10 @@ class GPriorBA(GPriorBase):
         self.sig2inv = 1.0 / self.sig2
         self.sig4inv = 1.0 / self.sig4
 
+        # the maximum used for sampling depends on the parameters
+        if hasattr(self, 'maxval1d'):
+            del self.maxval1d
+
     def get_fdiff(self, g1, g2):
         """
         Compute sqrt(-2ln(p)) ~ (data - mode)/err for using with LM fitters.
-- 
2.43.0


From 0a175650af2aaf8184fa5693f28a6d5ab0e2ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 13/47] fix: PriorCoellipSame bounds have one entry per
 parameter

---
 ngmix/joint_prior.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..5f93d44 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -900,16 +900,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
+        allp = [self.T_prior]*ngauss + self.F_priors*ngauss
 
         for i, p in enumerate(allp):
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                bounds.append((p.bounds[0], p.bounds[1]))
             else:
-                pbounds = [(None, None)]
-
-            bounds += [pbounds] * self.ngauss
+                bounds.append((None, None))
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From e9a1079c99616b7eef1ce1aa1c01a172c5d0bd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 14/47] fix: PriorCoellipSame samples the first T once, not the
 sum of two draws

---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 5f93d44..516a5cc 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1009,16 +1009,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4+i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From 44b3c75666cf8b0350c7bbbeab92632b41eb7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 15/47] fix: PriorCoellipSame.get_lnprob_array uses the prior
 on every parameter

---
 ngmix/joint_prior.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 516a5cc..656fb07 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -987,6 +987,27 @@ class PriorCoellipSame(PriorSimpleSep):
 
         return index
 
+    def get_lnprob_array(self, pars):
+        """
+        log probability for array input [N,ndims]
+
+        Parameters
+        ----------
+        pars: array
+            Array of parameters values
+        """
+        ngauss = self.ngauss
+
+        lnp = self.cen_prior.get_lnprob_array(pars[:, 0], pars[:, 1])
+        lnp += self.g_prior.get_lnprob_array2d(pars[:, 2], pars[:, 3])
+
+        F_prior = self.F_priors[0]
+        for i in range(ngauss):
+            lnp += self.T_prior.get_lnprob_array(pars[:, 4 + i])
+            lnp += F_prior.get_lnprob_array(pars[:, 4 + ngauss + i])
+
+        return lnp
+
     def sample(self, nrand=None):
         """
         Get random samples
-- 
2.43.0


From b88754b19afb5f4739df73dece51399d805a0e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 16/47] fix: psf flux guessers do not use the fluxes of an
 observation that is gone

---
 ngmix/guessers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..46bc28c 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,15 +93,16 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
+        # keep the observation itself, an id can be used again for a new
+        # observation once the old one is gone
+        if obs is not self._obs_last:
             fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
             self._psf_fluxes = fdict['flux']
+            self._obs_last = obs
         return self._psf_fluxes
 
     def __call__(self, obs, nrand=1):
@@ -162,7 +163,7 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
@@ -337,7 +338,7 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
+        self._obs_last = None
         self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
-- 
2.43.0


From 19a8ad08e65864dd1d9579a7e1ff0dfb9284c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 17/47] fix: GMixND samples the current mixture after
 set_mixture

---
 ngmix/gmix_ndim/gmix_ndim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index d63fb07..ec86e8a 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -68,6 +68,10 @@ class GMixND(object):
 
         self._calc_icovars_and_norms()
 
+        # made for the old mixture
+        if hasattr(self, '_gmm'):
+            del self._gmm
+
         self.tmp_lnprob = numpy.zeros(self.ngauss)
         self.xdiff = numpy.zeros(self.ndim)
 
@@ -107,8 +111,8 @@ class GMixND(object):
         if not gmm.converged_:
             print("DID NOT CONVERGE")
 
-        self._gmm = gmm
         self.set_mixture(gmm.weights_, gmm.means_, gmm.covariances_)
+        self._gmm = gmm
 
         if doplot:
             plt = self.plot(data=data, **keys)
-- 
2.43.0


From 028056f7c78154b4094a9ec2a904fc584b19caba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 18/47] fix: GMixND does not read past the end of points with
 too few dimensions

---
 ngmix/gmix_ndim/gmix_ndim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index ec86e8a..e5d6d8d 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -270,9 +270,14 @@ class GMixND(object):
 
     def _get_prob(self, pars, dolog, component=None):
         """
-        version with no checking
+        version with no checking, except for the number of dimensions
         """
 
+        if pars.size != self.ndim:
+            raise ValueError(
+                'got %d dimensions, expected %d' % (pars.size, self.ndim)
+            )
+
         if component is None:
             return gmixnd_get_prob(
                 self.log_pnorms,
-- 
2.43.0


From 36a167fc68acb2bb0ded08a72cc004d87a7f5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 19/47] fix: galsim psf flux chi^2 uses the model the flux was
 fit for

---
 ngmix/fitting/galsim_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index c58d03d..76ac815 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -535,7 +535,7 @@ class GalsimPSFFitModel(PSFFluxFitModel):
 
         if flux is not None:
             model = self.template_list[iobs].copy()
-            model *= flux / model.sum()
+            model *= flux
         else:
             model = self.template_list[iobs]
 
-- 
2.43.0


From 6095ac5eddd515631df27ee34422c1b719185ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 20/47] fix: run_leastsq results always have pars_err

---
 ngmix/fitting/leastsqbound.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..5f376df 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -131,6 +131,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             pars, pcov, perr = _get_def_stuff(npars)
 
             res["pars"] = pars
+            res["pars_err"] = perr
             res["pars_cov0"] = pcov
             res["pars_cov"] = pcov
             res["nfev"] = -1
@@ -144,6 +145,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
         pars, pcov, perr = _get_def_stuff(npars)
 
         res["pars"] = pars
+        res["pars_err"] = perr
         res["pars_cov0"] = pcov
         res["pars_cov"] = pcov
         res["nfev"] = -1
-- 
2.43.0


From 278ea8915abdc29209a184972fae624688fa1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 21/47] fix: ratio errors are not NaN when the numerator is
 zero

---
 ngmix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/util.py b/ngmix/util.py
index 3bfb67d..0c93365 100644
--- a/ngmix/util.py
+++ b/ngmix/util.py
@@ -62,9 +62,10 @@ def get_ratio_var(a, b, var_a, var_b, cov_ab):
     if np.any(b == 0):
         raise ValueError("zero in denominator")
 
-    rsq = (a/b)**2
+    # written so that it also works for a == 0
+    rat = a/b
 
-    var = rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))
+    var = (var_a + rat**2 * var_b - 2*rat*cov_ab)/b**2
     return var
 
 
-- 
2.43.0


From 05999a03cc3d2747ae934c895e842185286e60b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 22/47] fix: a mixture can be copied after a refused fill

---
 ngmix/gmix/gmix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index a2854d4..e12368c 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -404,12 +404,14 @@ class GMix(object):
             The parameters
         """
 
-        self._pars[:] = pars
+        # the pars are only kept if they are accepted
+        pars = np.array(pars, dtype="f8")
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._pars,
+            gm, pars,
         )
+        self._pars[:] = pars
 
     def copy(self):
         """
@@ -997,12 +999,14 @@ class GMixCM(GMixModel):
             The parameters
         """
 
-        self._pars[:] = pars
+        # the pars are only kept if they are accepted
+        pars = np.array(pars, dtype="f8")
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._fracdev, self._TdByTe, self._Tfactor, self._pars,
+            gm, self._fracdev, self._TdByTe, self._Tfactor, pars,
         )
+        self._pars[:] = pars
 
     def __repr__(self):
         rep = super(GMixCM, self).__repr__()
-- 
2.43.0


From bbc86d2f07a1a560580c05c91462accc8e765d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 23/47] fix: regularized moments keep the weight sum and work
 for higher orders

regularize_mom_shapes raised for results with 17 moments and replaced
sums_norm by NaN
---
 ngmix/moments.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/moments.py b/ngmix/moments.py
index c1e028f..b17f1f5 100644
--- a/ngmix/moments.py
+++ b/ngmix/moments.py
@@ -609,7 +609,7 @@ def regularize_mom_shapes(res, fwhm_reg):
 
         # the moments are not normalized and are sums, so convert T_reg to a sum using
         # the flux sum first via T_reg -> T_reg * raw_mom[5]
-        amat = np.eye(6)
+        amat = np.eye(len(raw_mom))
         amat[4, 5] = T_reg
 
         # the pre-PSF fitters do not fill out the centroid moments so hack around that
@@ -627,7 +627,9 @@ def regularize_mom_shapes(res, fwhm_reg):
             reg_mom[1] = np.nan
 
         reg_mom_cov = np.dot(amat, np.dot(raw_mom_cov, amat.T))
-        momres = make_mom_result(reg_mom, reg_mom_cov)
+        momres = make_mom_result(
+            reg_mom, reg_mom_cov, sums_norm=res["sums_norm"],
+        )
 
         # use old T
         for col in ["T", "T_err", "T_flags", "T_flagstr"]:
-- 
2.43.0


From 837a0a2cd5ae77b2717d1dfcca67489133b2b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 24/47] fix: EM does not report a zero fdiff when convergence
 was never tested

frac_diff was used without being set when maxiter < miniter: zero when
compiled, UnboundLocalError when interpreted
---
 ngmix/em/em_nb.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ngmix/em/em_nb.py b/ngmix/em/em_nb.py
index 3b9b389..8258582 100644
--- a/ngmix/em/em_nb.py
+++ b/ngmix/em/em_nb.py
@@ -69,6 +69,10 @@ def em_run(conf,
 
     elogL_last = -9999.9e9
 
+    # in case convergence is never tested
+    numiter = 0
+    frac_diff = np.inf
+
     for i in range(conf['maxiter']):
 
         elogL = 0.0
@@ -411,6 +415,10 @@ def em_run_fixcen(conf,
 
     elogL_last = -9999.9e9
 
+    # in case convergence is never tested
+    numiter = 0
+    frac_diff = np.inf
+
     for i in range(conf['maxiter']):
 
         elogL = 0.0
@@ -758,6 +766,10 @@ def em_run_fixcov(
 
     elogL_last = -9999.9e9
 
+    # in case convergence is never tested
+    numiter = 0
+    frac_diff = np.inf
+
     for i in range(conf['maxiter']):
 
         elogL = 0.0
@@ -1058,6 +1070,10 @@ def em_run_fluxonly(
 
     p_last = gmix['p'].sum()
 
+    # in case convergence is never tested
+    numiter = 0
+    frac_diff = np.inf
+
     for i in range(conf['maxiter']):
         skysum = 0.0
         clear_sums_fluxonly(sums)
-- 
2.43.0


From 3a454faffeef0a5ea462377dfc4ce2ff1ddbf824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 25/47] fix: simple models have one prior slot per prior in the
 residuals

---
 ngmix/fitting/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..7f1bec4 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -832,8 +832,8 @@ def get_lm_n_prior_pars(model, nband):
         # center1 + center2 + shape + T + fracdev + fluxes
         npp = 1 + 1 + 1 + 1 + 1 + nband
     elif model in ['exp', 'dev', 'gauss', 'turb']:
-        # simple models
-        npp = 1 + 1 + 1 + 1 + 1 + nband
+        # center1 + center2 + shape + T + fluxes
+        npp = 1 + 1 + 1 + 1 + nband
     else:
         raise ValueError('bad model: %s' % model)
 
-- 
2.43.0


From f1cf241e9c6aedd2b3d8592a24bb9fe588f36a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 26/47] fix: bounded least squares permutes its covariance with
 the C minpack of scipy

---
 ngmix/fitting/leastsqbound.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 5f376df..7741104 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -536,13 +536,15 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     if full_output:
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        # the permutation counts from one for the fortran minpack and from
+        # zero since it was rewritten in C
+        ipvt = retval[1]['ipvt'] - retval[1]['ipvt'].min()
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, ipvt)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
+            perm = take(eye(n), ipvt, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
             R = dot(r, perm)
             try:
-- 
2.43.0


From 66b86c14cd5a3071acc86dd0f5c2a11f29e2d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 27/47] fix: fits with fewer degrees of freedom than none were
 not flagged when the residuals vanish

---
 ngmix/fitting/leastsqbound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 7741104..2d8be35 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -98,7 +98,7 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             else:
                 dof = fdiff.size - n_prior_pars - npars
 
-            if dof == 0:
+            if dof <= 0:
                 junk, pcov, perr = _get_def_stuff(npars)
                 flags |= ZERO_DOF
             else:
-- 
2.43.0


From 45174beeb4c3239be5194a935c851b43e926ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 28/47] fix: flux of spergel and moffat fits was the fifth
 parameter (nu or beta)

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 7f1bec4..e7d54d4 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -859,7 +859,7 @@ def _set_flux(res, nband):
 
     if model == 'bd':
         start = 7
-    elif model == 'bdf':
+    elif model in ['bdf', 'spergel', 'moffat']:
         start = 6
     else:
         start = 5
-- 
2.43.0


From 59c1bd230b1f362b58757ac81d4d9c7d7c19c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 29/47] fix: template fluxes used pixels with negative or NaN
 weight

---
 ngmix/fitting/results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index e7d54d4..1468ec6 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -582,7 +582,8 @@ class PSFFluxFitModel(dict):
                 obs = self.obs[iobs]
 
                 im = obs.image
-                wt = obs.weight
+                # only pixels with weight > 0 are used
+                wt = np.where(obs.weight > 0, obs.weight, 0.0)
 
                 if ipass == 1:
                     model = self._get_model(iobs)
-- 
2.43.0


From 49aeb39645093157ad9979fe9095c5bb4d8577ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 30/47] fix: galsim fits wrote their model images in the
 metadata of the k-space observations sent

---
 ngmix/fitting/galsim_results.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index 76ac815..f11519f 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -213,7 +213,8 @@ class GalsimFitModel(FitModel):
         if isinstance(obs_in, (Observation, ObsList, MultiBandObsList)):
             kobs = self._convert2kobs(obs_in)
         else:
-            kobs = observation.get_kmb_obs(obs_in)
+            # we write in the metadata, so it cannot be that of the caller
+            kobs = _copy_kmb_obs(observation.get_kmb_obs(obs_in))
 
         self.mb_kobs = kobs
         self.nband = len(kobs)
@@ -639,6 +640,28 @@ class GalsimPSFFitModel(PSFFluxFitModel):
         self.template_list = image_list
 
 
+def _copy_kmb_obs(kmb_obs):
+    """
+    Get a KMultiBandObsList with the same images as the input, but
+    with its own metadata for each observation
+    """
+    new_kmb_obs = observation.KMultiBandObsList(meta=kmb_obs.meta)
+    for kobs_list in kmb_obs:
+        new_kobs_list = observation.KObsList(meta=kobs_list.meta)
+        for kobs in kobs_list:
+            new_kobs_list.append(
+                observation.KObservation(
+                    kobs.kimage,
+                    weight=kobs.weight,
+                    psf=kobs.psf if kobs.has_psf() else None,
+                    meta=dict(kobs.meta),
+                )
+            )
+        new_kmb_obs.append(new_kobs_list)
+
+    return new_kmb_obs
+
+
 def get_galsim_npars(model, nband):
     """
     get number of parameters for a galsim model
-- 
2.43.0


From 82f80a792da1578dd7f27b2cce0b748b0c22325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 31/47] fix: aperture fluxes of objects with parameters that
 are not finite were wrong and not flagged

---
 ngmix/gaussap.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..f0dac46 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -92,8 +92,10 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
     try:
 
         tpars = _get_band_pars(pars, model, i, band)
+        _check_finite(tpars)
 
         if model == 'cm':
+            _check_finite([fracdev[i], TdByTe[i]])
             gm = GMixCM(
                 fracdev[i],
                 TdByTe[i],
@@ -105,12 +107,17 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
         flux = gm.get_gaussap_flux(fwhm=weight_fwhm)
         flags = 0
 
-    except GMixRangeError as err:
+    except (GMixRangeError, ZeroDivisionError) as err:
         logger.debug(str(err))
 
     return flux, flags
 
 
+def _check_finite(pars):
+    if not np.all(np.isfinite(pars)):
+        raise GMixRangeError('parameters are not finite: %s' % pars)
+
+
 def _prepare(pars,
              model,
              weight_fwhm,
-- 
2.43.0


From 5b78efd2427417c63ac784746c495a95702ecc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 32/47] fix: log-probability of n-dimensional mixtures was -inf
 far from the means

---
 ngmix/gmix_ndim/gmix_ndim_nb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim_nb.py b/ngmix/gmix_ndim/gmix_ndim_nb.py
index 0a2bd31..d1c451b 100644
--- a/ngmix/gmix_ndim/gmix_ndim_nb.py
+++ b/ngmix/gmix_ndim/gmix_ndim_nb.py
@@ -33,7 +33,7 @@ def gmixnd_get_prob(log_pnorms,
 
     n_dim = means.shape[1]
     n_gauss = log_pnorms.size
-    lnpmax = -9.99e9
+    lnpmax = -numpy.inf
 
     for i in range(n_gauss):
 
@@ -58,6 +58,10 @@ def gmixnd_get_prob(log_pnorms,
 
         tmp_lnprob[i] = lnp
 
+    if lnpmax == -numpy.inf:
+        # avoid inf-inf
+        lnpmax = 0.0
+
     p = 0.0
     for i in range(n_gauss):
         p += numpy.exp(tmp_lnprob[i] - lnpmax)
-- 
2.43.0


From 44da7834de8b3c34de73c4143959967b5e342f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 33/47] fix: maximum of the 1d shape prior was not found for
 wide priors or amplitudes far from one

---
 ngmix/priors/shape.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index f419849..8077bd5 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -491,6 +491,24 @@ class GPriorBA(GPriorBase):
 
         return super().sample1d(nrand, maxguess=maxguess)
 
+    def set_maxval1d(self, maxguess=None):
+        """
+        Set the max value of the 1d distribution, for which there is a closed
+        form whatever the width and amplitude
+
+        parameters
+        ----------
+        maxguess: float
+            Not used, for consistency with the base class
+        """
+        # zero of the derivative of the log of g (1-g^2)^2 exp(-0.5 g^2/sigma^2)
+        b = 5.0 + self.sig2inv
+        gsq = 2.0 / (b + sqrt(b * b - 4.0 * self.sig2inv))
+        gmode = sqrt(gsq)
+
+        self.maxval1d = self.get_prob_scalar1d(gmode)
+        self.maxval1d_loc = array([gmode])
+
     def set_pars(self, pars):
         """
         Set parameters of the prior.
-- 
2.43.0


From 3e45e7cc5637c5cb0160a48c9aeae3af44f24cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 34/47] fix: log probability of a flat prior for an array was a
 scalar

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..1e25393 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -137,7 +137,7 @@ class FlatPrior(PriorBase):
                 "[%s,%s]" % (self.minval, self.maxval)
             )
 
-        return retval
+        return vals*0 + retval
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From 5095682c51dac705b4af06f688e85a076e795d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 35/47] fix: array form of the truncated gaussian excluded the
 limits the scalar form includes

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 1e25393..db9457e 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -1105,7 +1105,7 @@ class TruncatedGaussian(PriorBase):
         """
         lnp = np.zeros(val.size)
         lnp -= np.inf
-        (w,) = np.where((val > self.minval) & (val < self.maxval))
+        (w,) = np.where((val >= self.minval) & (val <= self.maxval))
         if w.size > 0:
             diff = val[w] - self.mean
             lnp[w] = -0.5 * diff * diff * self.ivar
-- 
2.43.0


From 9964338548236b1e808c5887653d26249103078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 36/47] fix: bulge+disk priors with a tuple of flux priors
 could not be made

---
 ngmix/joint_prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 656fb07..6836df9 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -325,7 +325,7 @@ class PriorBDSep(PriorSimpleSep):
             self.T_prior,
             self.logTratio_prior,
             self.fracdev_prior,
-        ] + self.F_priors
+        ] + list(self.F_priors)
 
         some_have_bounds = False
         for i, p in enumerate(allp):
@@ -527,7 +527,7 @@ class PriorBDFSep(PriorSimpleSep):
             (None, None),  # g2
         ]
 
-        allp = [self.T_prior, self.fracdev_prior] + self.F_priors
+        allp = [self.T_prior, self.fracdev_prior] + list(self.F_priors)
 
         some_have_bounds = False
         for i, p in enumerate(allp):
-- 
2.43.0


From 3b8d5956fc826045a68b054e59d344451bf6141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 37/47] fix: guess for the bulge+disk model put the fracdev
 guess in the size ratio

---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 46bc28c..cd43ed3 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -473,7 +473,7 @@ class BDGuesser(object):
         guess[:, 4] = self.T * (1.0 + r)
 
         # fracdev prior
-        guess[:, 5] = rng.uniform(low=0.4, high=0.6, size=nrand)
+        guess[:, 6] = rng.uniform(low=0.4, high=0.6, size=nrand)
 
         for band in range(nband):
             r = rng.uniform(low=-0.1, high=0.1, size=nrand)
-- 
2.43.0


From 8e707f345872fb6d00d539c3321614fa57abda44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 38/47] fix: psf mixture guesses were not positive definite for
 small pixel scales

---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index cd43ed3..43b9e6d 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -929,21 +929,21 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -959,28 +959,28 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -996,35 +996,35 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            sigma2 * rng.uniform(low=-0.01, high=0.01),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
-- 
2.43.0


From 5a8d75e16403b4aa68626feeba176baf1b5a89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 39/47] fix: metacal with psf='fitgauss' does not write the fit
 into the caller's psf

---
 ngmix/metacal/metacal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 270c9b6..0b2a9d9 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -685,7 +685,10 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
         # try adaptive moments first
         fitter = AdmomFitter(rng=self.rng)
 
-        res = run_psf_fitter(obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry)
+        res = run_psf_fitter(
+            obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry,
+            set_result=False,
+        )
 
         if res['flags'] == 0:
             e1, e2 = res['e']
-- 
2.43.0


From ebe0b6edcafb975325549d9a0e6006c3e3b28a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 40/47] fix: refuse a negative start in fill_fdiff, it wrote
 outside the array

---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e12368c..1ee1ebb 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -631,6 +631,9 @@ class GMix(object):
             Where to start in the array, default 0
         """
 
+        if start < 0:
+            raise ValueError("start must be >= 0, got %d" % start)
+
         nuse = fdiff.size - start
 
         image = obs.image
-- 
2.43.0


From 3ddcfbc262a61da1bed991b3cadb16d45fe4e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 41/47] fix: refuse mixtures without gaussians, using one read
 outside the array

---
 ngmix/gmix/gmix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 1ee1ebb..00a6cce 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -796,6 +796,9 @@ class GMix(object):
         """
         Replace the data array with a zeroed one.
         """
+        if self._ngauss < 1:
+            raise ValueError("need at least one gaussian, got %d" % self._ngauss)
+
         self._pars = np.zeros(self._npars)
         self._data = np.zeros(self._ngauss, dtype=_gauss2d_dtype)
 
-- 
2.43.0


From 7a6069e68d3089b8c817d6f56cdcfeb4dd9c2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 42/47] fix: comparing observations failed when their metadata
 holds arrays (such as an attached fit result)

---
 ngmix/observation.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 544e440..7d1a5ec 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -63,6 +63,29 @@ class MetadataMixin(object):
         self.meta.update(meta)
 
 
+def _meta_equal(m1, m2):
+    """
+    Compare metadata values, which may hold arrays at any level
+    """
+    if isinstance(m1, dict) and isinstance(m2, dict):
+        return (
+            m1.keys() == m2.keys()
+            and all(_meta_equal(m1[key], m2[key]) for key in m1)
+        )
+    elif (
+        (isinstance(m1, list) and isinstance(m2, list))
+        or (isinstance(m1, tuple) and isinstance(m2, tuple))
+    ):
+        return (
+            len(m1) == len(m2)
+            and all(_meta_equal(v1, v2) for v1, v2 in zip(m1, m2))
+        )
+    elif isinstance(m1, np.ndarray) or isinstance(m2, np.ndarray):
+        return m1 is m2 or np.array_equal(m1, m2)
+    else:
+        return m1 is m2 or m1 == m2
+
+
 class Observation(MetadataMixin):
     """
     Represent an observation with an image and possibly a
@@ -740,7 +763,7 @@ class Observation(MetadataMixin):
             raise ValueError(f'expected Observation, got {type(obs)}')
 
         # attributes that all share
-        if self.meta != obs.meta:
+        if not _meta_equal(self.meta, obs.meta):
             return False
 
         # image attributes
@@ -754,7 +777,6 @@ class Observation(MetadataMixin):
             ('psf', 'obj'),
             ('gmix', 'obj'),
             ('jacobian', 'obj'),
-            ('meta', 'obj'),
         )
         for attr, atype in attrs:
             has = f'has_{attr}'
-- 
2.43.0


From ac9aeb13e1bb798b827bf061c905ab4bade3d4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 43/47] fix: run_leastsq raised instead of flagging when there
 are fewer residuals than parameters

---
 ngmix/fitting/leastsqbound.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index 2d8be35..fc695b7 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -141,6 +141,23 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
         else:
             raise e
 
+    except TypeError as e:
+        if "Improper input" not in str(e):
+            raise e
+
+        # fewer residuals than parameters
+        pars, pcov, perr = _get_def_stuff(npars)
+
+        res["pars"] = pars
+        res["pars_err"] = perr
+        res["pars_cov0"] = pcov
+        res["pars_cov"] = pcov
+        res["nfev"] = -1
+
+        res["flags"] = ZERO_DOF
+        res["errmsg"] = "fewer residuals than parameters"
+        LOGGER.debug(res["errmsg"])
+
     except ZeroDivisionError:
         pars, pcov, perr = _get_def_stuff(npars)
 
-- 
2.43.0


From ef5f3216db9202ca344f1f507a29e3ddfb4dccf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:08 +0000
Subject: [PATCH 44/47] fix: aperture flux of a mixture without a defined flux
 was NaN without a flag

---
 ngmix/gaussap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index f0dac46..9d38d18 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -104,7 +104,11 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
         else:
             gm = GMixModel(tpars, model)
 
-        flux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+        tflux = gm.get_gaussap_flux(fwhm=weight_fwhm)
+        # e.g. a negative TdByTe
+        _check_finite(tflux)
+
+        flux = tflux
         flags = 0
 
     except (GMixRangeError, ZeroDivisionError) as err:
-- 
2.43.0


From a5f732ff2b0868fa54b927d9037d0df48d21760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 45/47] fix: a failed update left an observation with the
 pixels of its old data

---
 ngmix/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 7d1a5ec..9b87bdf 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -840,8 +840,10 @@ class Observation(MetadataMixin):
         create the pixel struct array, for efficient cache usage
         """
 
+        # if the update fails, do not keep pixels of the old data
+        self._pixels = None
+
         if not self._store_pixels:
-            self._pixels = None
             return
 
         pixels = make_pixels(
-- 
2.43.0


From 46ff506bc85a9f7a041b1b8bed7e92dbe63b1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 46/47] fix: an unpickled observation had writeable pixels, or
 arrays that could not be written in the writeable context

---
 ngmix/observation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 9b87bdf..2596706 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -753,6 +753,22 @@ class Observation(MetadataMixin):
     def __copy__(self):
         return self.copy()
 
+    def __setstate__(self, state):
+        """
+        restore a pickled observation.  The flags of the arrays can differ from
+        those pickled: the stored arrays can always be written in the writeable
+        context, and the pixels never
+        """
+        self.__dict__.update(state)
+
+        for name in ('_image', '_weight', '_bmask', '_ormask', '_noise', '_mfrac'):
+            array = state.get(name)
+            if array is not None and not array.flags['WRITEABLE']:
+                setattr(self, name, array.copy())
+
+        if self._pixels is not None:
+            self._pixels.flags['WRITEABLE'] = False
+
     def __deepcopy__(self, memo):
         result = self.copy(memo=memo)
         memo[id(self)] = result
-- 
2.43.0


From a94ada376b226a5dda5113ee942bb59cd3b292bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:01 +0000
Subject: [PATCH 47/47] fix: the unsheared and 1p metacal observations shared
 one psf image

---
 ngmix/metacal/metacal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index 0b2a9d9..ddc8bcc 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -456,7 +456,8 @@ class MetacalDilatePSF(object):
     def _make_psf_obs(self, psf_im):
 
         new_psf_obs = self.obs.psf.copy()
-        new_psf_obs.image = psf_im.array
+        # the same psf image can be used for more than one observation
+        new_psf_obs.image = psf_im.array.copy()
         return new_psf_obs
 
     def _make_obs(self, im, psf_im):
-- 
2.43.0

