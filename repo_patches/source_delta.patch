From 2629227551b45af5a9c1b5292c31989238f8181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 01/91] fix: do not emit NaN directions for evanescent grating
 orders

Orders that cannot propagate were returned with a NaN direction and a
non-zero probability. Set their probability to 0 and keep the ray direction.
---
 marxs/optics/grating.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..9ca05d5 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -257,12 +257,17 @@ class FlatGrating(FlatOpticalElement):
         p_d = np.einsum("ij,ij->i", p, d) + sign * m * wave / self.d(intercoos[intersect, :])
         p_l = np.einsum("ij,ij->i", p, l)
         # The norm for p_n can be derived, but the direction needs to be chosen.
-        p_n = np.sqrt(1. - p_d**2 - p_l**2)
+        p_n2 = 1. - p_d**2 - p_l**2
+        # Orders with p_n2 < 0 are evanescent, no photons propagate in them.
+        evanescent = p_n2 < 0
+        p_n = np.sqrt(np.where(evanescent, 0., p_n2))
         # Check if the photons have same direction compared to normal before
         direction = np.sign(np.einsum("ij,ij->i", p, n), dtype=float)
         if not self.transmission:
             direction *= -1
         dir = p_d[:, None] * d + p_l[:, None] * l + (direction * p_n)[:, None] * n
+        dir[evanescent] = p[evanescent]
+        prob = np.where(evanescent, 0., prob)
         return dir, m, prob, blazeangle
 
     def specific_process_photons(self, photons,
-- 
2.43.0


From 6508c4df7c25d3656e521f34475530a7f2e646b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/91] fix: CCDRedistNormal crashed when some photons miss the
 detector

Draw detected energies only for intersecting photons, as the caller expects.
---
 marxs/optics/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..919d598 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,9 +194,9 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect], u.keV)
         det_en = norm.rvs(
-            loc=phot_en,
-            scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
+            loc=phot_en.value,
+            scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()).value,
         )
         return {self.energycol: det_en}
-- 
2.43.0


From b9d839e88512b3ef6f9a10ce07d4ccdad06c50eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/91] fix: OrderSelector returned probabilities > 1 due to
 rounding

E.g. with 20 equally likely orders the sum of probabilities is 1 + 2e-16 and
every grating using it raised a ValueError.
---
 marxs/optics/grating.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 9ca05d5..9e0d8b1 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -42,17 +42,19 @@ class OrderSelector(object):
             p = np.asanyarray(p)
             if len(p) != len(orderlist):
                 raise ValueError('Number of elements in orderlist and probabilities does not match.')
-            if p.sum() > 1.:
+            # Allow for rounding errors in the sum
+            if p.sum() > 1. + 1e-12:
                 raise ValueError('Sum of all probabilities must be <= 1.')
             if np.any(p < 0):
                 raise ValueError('Probabilities cannot be negative')
             self.p = p
 
     def __call__(self, energy, *args):
-        p_sum = self.p.sum()
-        p = self.p / p_sum
+        p = self.p / self.p.sum()
+        # Rounding errors can make the sum slightly larger than 1
+        p_sum = min(self.p.sum(), 1.)
         if np.isscalar(energy):
-            return np.random.choice(self.orderlist, p=p), self.p.sum()
+            return np.random.choice(self.orderlist, p=p), p_sum
         else:
             return np.random.choice(self.orderlist, size=len(energy), p=p), p_sum * np.ones_like(energy)
 
-- 
2.43.0


From 6f83b8049e3ab1cea7f10fe4ee30d5b2ec193335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 04/91] fix: EfficiencyFile failed for energies with zero
 transmission

A row in which all orders have probability 0 led to 0/0 and a ValueError
when a photon of that energy was processed.
---
 marxs/optics/grating.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 9e0d8b1..125a451 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -87,7 +87,11 @@ class EfficiencyFile(object):
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        self.cumprob = np.cumsum(self.prob, axis=1)
+        nonzero = self.totalprob > 0
+        self.cumprob[nonzero] /= self.totalprob[nonzero, None]
+        # If nothing is transmitted, the order does not matter (probability is 0).
+        self.cumprob[~nonzero] = 1.
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
-- 
2.43.0


From 5f8ef06469c1373af9f2035b5be653e1e6fccca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 05/91] fix: Q_reflection always raised a ValueError

Compare the number of dimensions, not the shape, to 2.
---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From 4afbec97e222f0943c9a37076c0941cff674ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 06/91] fix: parallel_transport ignored its keyword arguments

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From 2357067976f082f40107662d7cbb9de71449eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 07/91] fix: EfficiencyFile returned probabilities > 1 due to
 rounding

---
 marxs/optics/grating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 125a451..4594739 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -86,6 +86,8 @@ class EfficiencyFile(object):
         self.prob = dat[:, 1:]
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
+        # Rounding errors can make the sum slightly larger than 1
+        self.totalprob[np.abs(self.totalprob - 1.) < 1e-12] = 1.
         # Cumulative probability for orders, normalized to 1.
         self.cumprob = np.cumsum(self.prob, axis=1)
         nonzero = self.totalprob > 0
-- 
2.43.0


From 62c420c03153ad0b7a85508baf9058224883c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 08/91] fix: EfficiencyFile could not read a file with a single
 row

---
 marxs/optics/grating.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4594739..43d768f 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -78,7 +78,7 @@ class EfficiencyFile(object):
 
     '''
     def __init__(self, filename, orders):
-        dat = np.loadtxt(filename)
+        dat = np.loadtxt(filename, ndmin=2)
         self.energy = dat[:, 0]
         if len(orders) != (dat.shape[1] - 1):
             raise ValueError('orders has len={0}, but data files has {1} order columns.'.format(len(orders), dat.shape[1] - 1))
-- 
2.43.0


From 846cfd39a7bebc7f7c2177da5ebae9b3bb2b242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 09/91] fix: Parallel.move_center kept elements in place only
 for untransformed containers

The inverse of the change of the reference has to be taken in the local system of
the container, otherwise elements move when the container is rotated or shifted.
---
 marxs/simulator/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..612161e 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,8 +376,9 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        inv = np.dot(np.linalg.inv(self.pos4d), old_pos4d)
         self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From a35e488da70abbf0a84a2ff6c59ed530853e61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:40 +0000
Subject: [PATCH 10/91] fix: elements_of_class never searched inside containers
 that match themselves

Without stop_at_first all matches have to be found, including those nested in
another match.
---
 marxs/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 612161e..712dfcb 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,10 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From bbade3682217025f77ba32e0a848f16cf127b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 11/91] fix: elements of a Parallel shared one uncertainty
 matrix

Editing the matrix of one element in place misaligned all elements.
---
 marxs/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 712dfcb..062ab9f 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -355,7 +355,7 @@ class Parallel(BaseContainer):
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-        self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
+        self.elem_uncertainty = [np.eye(4) for p in self.elem_pos]
         self.generate_elements()
 
     def move_center(self, change4d):
-- 
2.43.0


From 4d500d808c8069cb88ef3f7f2cd60adc98cc2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 12/91] fix: poisson_process never returned for less than about
 one expected photon

The number of intervals to draw was rounded down to 0, so the loop made no progress.
---
 marxs/source/basesources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..8c5ae62 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -68,11 +68,11 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         fullrate = rate * geomarea
         # Make 10 % more numbers then we expect to need, because it's random
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
-                          size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
+                          size=1 + int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
         # If we don't have enough numbers right now, add some more.
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=1 + int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From df419963c618e88f0ba84a5bd406b3e73543adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 13/91] fix: SphericalDiskSource used the small angle
 approximation

Offsets in longitude and latitude do not add up to the distance drawn from the radial
distribution on the sphere; large disks were distorted or failed with latitudes > 90 deg.
---
 marxs/source/basesources.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 8c5ae62..bb9d0f6 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -379,14 +379,10 @@ class RadialDistributionSource(AstroSource):
         '''
         photons = super().generate_photons(exposuretime)
 
-        relative_frame = SkyOffsetFrame(origin=self.coords)
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
-                                   frame=relative_frame)
-        origin_coord = relative_coords.transform_to(self.coords)
-        self.set_pos(photons, origin_coord)
+        self.set_pos(photons, self.coords.directional_offset_by(phi, d))
 
         return photons
 
-- 
2.43.0


From d02753abe748bd65f8200b37c30d46c3d634162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 14/91] fix: SymbolFSource with coords not in ICRS appeared at
 the wrong position

---
 marxs/source/basesources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index bb9d0f6..fbe3d96 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -514,6 +514,6 @@ class SymbolFSource(AstroSource):
         ra[elem == 2] += 0.8 * size
         dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
 
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        self.set_pos(photons, SkyCoord(ra, dec, frame='icrs'))
 
         return photons
-- 
2.43.0


From 70a2248d231ef4a006ec9fc18de800bf64396a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 15/91] fix: LabPointSourceCone in the direction of the z-axis
 gave nan directions

---
 marxs/source/labSource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..51b5a95 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,6 +119,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.allclose(axis, 0):
+            # cone is along the z-axis already or in the opposite direction
+            axis = [1, 0, 0]
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0


From 00ead10f2f4866256f613ae54b32a708e7bca58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 16/91] fix: FarLabPointSource did not normalize photon
 directions

---
 marxs/source/labSource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 51b5a95..1a88023 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -7,7 +7,7 @@ import transforms3d
 from ..optics.base import FlatOpticalElement
 from .basesources import Source
 from ..math.polarization import polarization_vectors
-from ..math.utils import h2e, e2h
+from ..math.utils import h2e, e2h, norm_vector
 
 
 class FarLabPointSource(Source, FlatOpticalElement):
@@ -52,7 +52,7 @@ class FarLabPointSource(Source, FlatOpticalElement):
                         pos[2, :] - self.sourcePos[2],
                         np.zeros(n)])
         photons['pos'] = pos.T
-        photons['dir'] = dir.T
+        photons['dir'] = norm_vector(dir.T)
         photons['polarization'] = polarization_vectors(dir.T, photons['polangle'])
         return photons
 
-- 
2.43.0


From 7e5e3ec48ace5e88b45cdf5134a1428e225bd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 17/91] fix: FixedPointing failed for coordinates without ra,
 dec (e.g. galactic)

---
 marxs/source/pointing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..9b9c711 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -158,14 +158,14 @@ class FixedPointing(PointingModel):
         photons['polarization'] = self.photons_pol(photons['dir'].data,
                                                    photons['polangle'].data,
                                                    photons['time'].data)
-        photons.meta['RA_PNT'] = (self.coords.ra.degree, '[deg] Pointing RA')
-        photons.meta['DEC_PNT'] = (self.coords.dec.degree,
+        photons.meta['RA_PNT'] = (self.coords.icrs.ra.degree, '[deg] Pointing RA')
+        photons.meta['DEC_PNT'] = (self.coords.icrs.dec.degree,
                                    '[deg] Pointing Dec')
         photons.meta['ROLL_PNT'] = (self.roll.to(u.degree).value,
                                     '[deg] Pointing Roll')
-        photons.meta['RA_NOM'] = (self.coords.ra.degree,
+        photons.meta['RA_NOM'] = (self.coords.icrs.ra.degree,
                                   '[deg] Nominal Pointing RA')
-        photons.meta['DEC_NOM'] = (self.coords.dec.degree,
+        photons.meta['DEC_NOM'] = (self.coords.icrs.dec.degree,
                                    '[deg] Nominal Pointing Dec')
         photons.meta['ROLL_NOM'] = (self.roll.to(u.degree).value,
                                     '[deg] Nominal Pointing Roll')
-- 
2.43.0


From d2757e8d509c48f16b166017f5011d94557df734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 18/91] fix: JitterPointing ignored reference_transform

If the optical axis is not the x-axis, the jitter was not applied perpendicular to it.
---
 marxs/source/pointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 9b9c711..75936e9 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -199,6 +199,8 @@ class JitterPointing(FixedPointing):
         n = len(photons)
         randang = np.random.rand(n) * 2. * np.pi
         ax = np.vstack([np.zeros(n), np.sin(randang), np.cos(randang)]).T
+        # The jitter axis is perpendicular to the optical axis
+        ax = np.dot(ax, self.reference_transform[:3, :3].T)
         if self.jitter > 0:
             # For comparison it's often useful to run a model with jitter=0
             # but that would fail np.random.normal(scale=0)
-- 
2.43.0


From a07a996b1843fe98485c83a59585e3c8892bdabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 19/91] fix: PerfectLens gave nan probabilities for rays
 through its centre

Rounding can make the cosine of the deflection slightly larger than 1,
arccos then gives nan, which is passed to the reflectivity function.
---
 marxs/optics/mirror.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 0426047..5e1b1bb 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -65,13 +65,11 @@ class PerfectLens(FlatOpticalElement):
             dir,
             photons["polarization"].data[intersect, :],
         )
-        angle = np.arccos(
-            np.abs(
-                np.einsum(
-                    "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
-                )
-            )
+        cos_angle = np.abs(
+            np.einsum("ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect])))
         )
+        # Rounding can make this slightly larger than 1 for rays that are not bent
+        angle = np.arccos(np.clip(cos_angle, 0, 1))
         return {
             "dir": dir,
             "polarization": pol,
-- 
2.43.0


From 8908cb2ab9a5492c73f2b6936c89f140dab890db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 20/91] fix: nan values passed the check that probabilities are
 in 0..1

---
 marxs/optics/base.py   | 3 ++-
 marxs/optics/filter.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/base.py b/marxs/optics/base.py
index 29050d0..7496965 100644
--- a/marxs/optics/base.py
+++ b/marxs/optics/base.py
@@ -42,7 +42,8 @@ def _assign_col_value(photons, col, index, value):
     '''
     if col == 'probability':
         # Fix numerics of a probability
-        if np.any(value < 0) or np.any(value > 1):
+        # Written such that nan values fail the test, too
+        if not np.all((value >= 0) & (value <= 1)):
             raise ValueError('Found probability outside of the 0..1 arange.')
         photons[col][index] *= value
     elif col is None:
diff --git a/marxs/optics/filter.py b/marxs/optics/filter.py
index 52b5354..380b031 100644
--- a/marxs/optics/filter.py
+++ b/marxs/optics/filter.py
@@ -47,7 +47,7 @@ class GlobalEnergyFilter(MarxsElement):
 
     def __call__(self, photons):
         p = self.filterfunc(photons['energy'])
-        if np.any(p < 0.) or np.any(p > 1.):
+        if not np.all((p >= 0.) & (p <= 1.)):
             raise ValueError('Probabilities returned by filterfunc must be in interval [0, 1].')
         photons['probability'] *= p
         return photons
@@ -89,6 +89,6 @@ class EnergyFilter(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         p =  self.filterfunc(photons['energy'][intersect])
-        if np.any(p < 0.) or np.any(p > 1.):
+        if not np.all((p >= 0.) & (p <= 1.)):
             raise ValueError('Probabilities returned by filterfunc must be in interval [0, 1].')
         return {'probability': p}
-- 
2.43.0


From ed69da49328a9f8ee8e81f73d30c9754a79b821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 21/91] fix: FlatBrewsterMirror gave nan probability at normal
 incidence or for fully absorbed photons

---
 marxs/optics/multiLayerMirror.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 90fa46c..0d552a2 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -62,6 +62,8 @@ class FlatBrewsterMirror(FlatOpticalElement):
 
         # First, make basis vectors.
         v_s = np.cross(beam_dir, self.geometry['e_x'][0:3])
+        # At normal incidence any direction in the mirror plane will do
+        v_s[np.all(v_s == 0, axis=1)] = self.geometry['e_y'][0:3]
         v_s /= np.linalg.norm(v_s, axis=1)[:, np.newaxis]
         v_p = np.cross(beam_dir, v_s)
 
@@ -75,6 +77,9 @@ class FlatBrewsterMirror(FlatOpticalElement):
         Es2 = fresnel_refl_s * p_v_s ** 2
         Ep2 = fresnel_refl_p * p_v_p ** 2
         intensity = Es2 + Ep2
+        # Polarization is nan for photons that were completely absorbed by
+        # a previous mirror. Those photons stay lost.
+        intensity[np.isnan(intensity)] = 0.
         # Sometimes, the numerics in the square make probabilities > 1
         # So, we clip, but raise an error is it's >> 1
         if np.any(intensity > 1.001):
-- 
2.43.0


From d7e5346e25d64990de7905e98431b85e67dbd439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 22/91] fix: FlatBrewsterMirror polarization of reflected
 photons used intensities as amplitudes

---
 marxs/optics/multiLayerMirror.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 0d552a2..1d8eb0f 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -88,8 +88,12 @@ class FlatBrewsterMirror(FlatOpticalElement):
         # parallel transport of polarization vector
         # v_s stays the same by definition
         new_v_p = np.cross(h2e(new_beam_dir), v_s)
-        new_pol = norm_vector(-Es2[:, np.newaxis] * v_s +
-                              Ep2[:, np.newaxis] * new_v_p)
+        # Polarization follows the amplitude of the electric field,
+        # not the intensity.
+        Es = np.sqrt(fresnel_refl_s) * p_v_s
+        Ep = np.sqrt(fresnel_refl_p) * p_v_p
+        new_pol = norm_vector(-Es[:, np.newaxis] * v_s +
+                              Ep[:, np.newaxis] * new_v_p)
 
         return {'dir': new_beam_dir,
                 'probability': np.clip(intensity, 0, 1),
-- 
2.43.0


From d0bf0c4ed3774c5f1647d8d2998ffa4864ab5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:49 +0000
Subject: [PATCH 23/91] fix: RadialMirrorScatter gave nan directions for rays
 that come straight from its centre

---
 marxs/optics/scatter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 573cf46..9a43c10 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -50,6 +50,15 @@ class RadialMirrorScatter(FlatOpticalElement):
         n = intersect.sum()
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
+        # The plane of reflection is undefined for rays that come straight from
+        # the center. Any other direction can be used as "radial" in this case.
+        pdir = norm_vector(h2e(photons['dir'][intersect].data))
+        undefined = (np.linalg.norm(np.cross(pdir, radial), axis=1) <=
+                     1e-12 * np.linalg.norm(radial, axis=1))
+        e_y, e_z = h2e(self.geometry['e_y']), h2e(self.geometry['e_z'])
+        parallel_y = np.abs(np.dot(pdir, e_y)) > 0.9
+        radial[undefined & ~parallel_y] = e_y
+        radial[undefined & parallel_y] = e_z
         perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
 
         # np.random.normal does not work with scale=0
-- 
2.43.0


From 4d3a41cba015084a7eecf8ad283847b59f504146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 24/91] fix: FlatBrewsterMirror polarization was not
 perpendicular to rays close to normal incidence

---
 marxs/optics/multiLayerMirror.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 1d8eb0f..c5e4747 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -63,7 +63,7 @@ class FlatBrewsterMirror(FlatOpticalElement):
         # First, make basis vectors.
         v_s = np.cross(beam_dir, self.geometry['e_x'][0:3])
         # At normal incidence any direction in the mirror plane will do
-        v_s[np.all(v_s == 0, axis=1)] = self.geometry['e_y'][0:3]
+        v_s[np.linalg.norm(v_s, axis=1) < 1e-8] = self.geometry['e_y'][0:3]
         v_s /= np.linalg.norm(v_s, axis=1)[:, np.newaxis]
         v_p = np.cross(beam_dir, v_s)
 
-- 
2.43.0


From 62dbaa77bfcc082966b64ce047a1094181341730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 25/91] fix: RowlandTorus.xyzw2parametric for points on the top
 and the inner branch of the torus

---
 marxs/design/rowland.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..13989c7 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -266,16 +266,19 @@ class RowlandTorus(MarxsElement, Geometry):
 
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
-        # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
-        theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
-
-        factor = self.R + self.r * np.cos(theta)
-        phi = np.zeros_like(factor)
-        ind = factor != 0
-        phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
-        if not intersectvalid:
-            phi[~factor] = np.nan
+        # For r > R the torus intersects itself and a point can be on the
+        # branch where (R + r cos(theta)) is positive or where it is negative.
+        rho = np.sqrt(xyz[:, 0]**2 + xyz[:, 2]**2)
+        pos = np.abs(np.hypot(rho - self.R, xyz[:, 1]) - self.r)
+        neg = np.abs(np.hypot(rho + self.R, xyz[:, 1]) - self.r)
+        s = np.where(neg < pos, -1, 1)
+        theta = np.arctan2(xyz[:, 1], s * rho - self.R)
+        # Keep theta in the range from -pi/2 to 3/2 pi
+        theta = np.where(theta < - np.pi / 2, theta + 2 * np.pi, theta)
+
+        phi = np.arctan2(s * xyz[:, 2], s * xyz[:, 0])
+        on_axis = np.isclose(rho, 0., atol=1e-10 * self.R)
+        phi[on_axis] = 0. if intersectvalid else np.nan
 
         return theta, phi
 
-- 
2.43.0


From 4e982e8bb1a1831ef62ac579f38ba4f40e0f2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 26/91] fix: GratingArrayStructure: angle covered by an
 element, single number for phi

---
 marxs/design/rowland.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 13989c7..6c68700 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -868,11 +868,11 @@ class GratingArrayStructure(ElementsOnTorus):
             The phi angles for centers of the elements at ``radius``.
 
         '''
-        if len(self.phi) == 1:
-            return self.phi
+        if np.size(self.phi) == 1:
+            return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / (2. * np.pi * radius)
+        element_angle = self.d_element[1] / (radius - self.d_element[0] / 2)
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From 14408116386460dd9b5f5054892a121f6be66034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 27/91] fix: GratingArrayStructure: phi=0 is on the positive y
 axis, counterclockwise

---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 6c68700..5b3010b 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -886,4 +886,4 @@ class GratingArrayStructure(ElementsOnTorus):
         # Turn lists of lists into flat numpy array
         radii = np.concatenate([[radii[i]] * len(a) for i, a in enumerate(angles)])
         angles = np.concatenate(angles)
-        return radii * np.sin(angles), radii * np.cos(angles)
+        return radii * np.cos(angles), radii * np.sin(angles)
-- 
2.43.0


From 7aed6980daead84e87ea73632fd26bc929ead71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:06 +0000
Subject: [PATCH 28/91] fix: add_offset_double_rowland_channels for any number
 of channels

---
 marxs/design/rowland.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 5b3010b..745291e 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -533,10 +533,7 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
-            base_rowland = 'rowland_central_m'
+        base_rowland = 'rowland_central_m' if 'm' in channel else 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From 0695744b497a2a64f7999dd014866fa5c8600817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 29/91] fix: RectangularGrid with identical limits places one
 row of elements

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 745291e..1670ca9 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -690,8 +690,8 @@ class RectangularGrid(ElementsOnTorus):
         width_y = n_y * self.d_element[0]
         width_z = n_z * self.d_element[1]
 
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]) + np.arange(n_y) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]) + np.arange(n_z) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From d193f8433557a03ad4b5e9879e21e0ff36b33cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 30/91] fix: RowlandTorus.solve_quartic if the search starts on
 the torus

---
 marxs/design/rowland.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1670ca9..e07cae2 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -177,7 +177,9 @@ class RowlandTorus(MarxsElement, Geometry):
                             # relative to r.
                             max(np.abs(self.r - self.R), self.r * 1e-2) * 0.1,
                             args=(origin, v))
-        if not out.success:
+        # If the line starts on the torus already, the root is at 0 and the
+        # convergence criterion, which is relative to the root, may not be met.
+        if not (out.success or np.all(np.abs(out.fun) < 1e-12 * (np.abs(self.R) + self.r)**4)):
             raise Exception('Intersection with torus not found.')
         else:
             return e2h(origin + out.x[..., None] * v, 1)
-- 
2.43.0


From af0584cf95cba64a0ad4db61cce278f54813c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:13 +0000
Subject: [PATCH 31/91] fix: anglediff: full circle that is 2 pi up to rounding

---
 marxs/math/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/math/utils.py b/marxs/math/utils.py
index 0bae4e9..8a7e7cd 100644
--- a/marxs/math/utils.py
+++ b/marxs/math/utils.py
@@ -170,8 +170,10 @@ def anglediff(phi):
         Two angles in radian
     '''
     anglediff = phi[1] - phi[0]
+    # If anglediff == 2 pi, presumably the user want to cover the full circle.
+    if np.isclose(anglediff, 2. * np.pi, rtol=0., atol=1e-12):
+        return 2. * np.pi
     if (anglediff < 0.) or (anglediff > (2. * np.pi)):
-        # If anglediff == 2 pi exactly, presumably the user want to cover the full circle.
         anglediff = anglediff % (2. * np.pi)
     return anglediff
 
-- 
2.43.0


From 268bfdd46a1ca5b526c6888b15b0ad82ba773664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 32/91] fix: moveindividual: do not share one matrix between
 all elements

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..058a5d6 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -99,7 +99,7 @@ def moveindividual(e, dx=0, dy=0, dz=0, rx=0, ry=0, rz=0):
     '''
     e.elem_uncertainty = [affines.compose((dx, dy, dz),
                                           euler.euler2mat(rx, ry, rz, 'sxyz'),
-                                          np.ones(3))] * len(e.elements)
+                                          np.ones(3)) for i in range(len(e.elements))]
     e.generate_elements()
 
 
-- 
2.43.0


From 082087eb0e441c8bb93da2ec2aaf8a76b05559f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 33/91] fix: run_tolerances_for_energies2: respect subclass_ok
 when selecting elements

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 058a5d6..c684e32 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From 4ca921f580bb5cba5cc13aa7fd025c0f52c2cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:07 +0000
Subject: [PATCH 34/91] fix: moveelem moves all layers of a FlatStack

---
 marxs/design/tolerancing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index c684e32..13aaa62 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -10,6 +10,7 @@ from astropy.table import Table
 from astropy import table
 import astropy.units as u
 from marxs.simulator import Sequence
+from marxs.optics import FlatStack
 from marxs.design.uncertainties import generate_facet_uncertainty as genfacun
 
 __all__ = ['oneormoreelements',
@@ -130,6 +131,10 @@ def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
                            euler.euler2mat(rx, ry, rz, 'sxyz'),
                            np.ones(3))
     e.geometry.pos4d = move @ e.geometry.pos4d_orig
+    # All layers of a stack are in the same place
+    if isinstance(e, FlatStack):
+        for layer in e.elements:
+            moveelem(layer, dx, dy, dz, rx, ry, rz)
 
 
 @oneormoreelements
-- 
2.43.0


From 5b3572a3161d9ad77b78606fc09dcc4ec28ddee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:09 +0000
Subject: [PATCH 35/91] fix: RadialMirrorScatter accepts changed scatter with
 any angle unit

---
 marxs/optics/scatter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 9a43c10..f1a111c 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -61,18 +61,22 @@ class RadialMirrorScatter(FlatOpticalElement):
         radial[undefined & parallel_y] = e_z
         perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
 
+        # Attributes might have been changed to a Quantity in any angle unit
+        inplanescatter = u.Quantity(self.inplanescatter, u.rad).value
+        perpplanescatter = u.Quantity(self.perpplanescatter, u.rad).value
+
         # np.random.normal does not work with scale=0
         # so special case that here.
-        if self.inplanescatter != 0:
-            inplaneangle = np.random.normal(loc=0., scale=self.inplanescatter, size=n)
+        if inplanescatter != 0:
+            inplaneangle = np.random.normal(loc=0., scale=inplanescatter, size=n)
             rot = axangle2mat(perpplane, inplaneangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(photons['dir'][intersect])), 0)
         else:
             inplaneangle = np.zeros(n)
             outdir = photons['dir'][intersect]
 
-        if self.perpplanescatter !=0:
-            perpangle = np.random.normal(loc=0., scale=self.perpplanescatter, size=n)
+        if perpplanescatter != 0:
+            perpangle = np.random.normal(loc=0., scale=perpplanescatter, size=n)
             rot = axangle2mat(radial, perpangle)
             outdir = e2h(np.einsum('...ij,...i->...j', rot, h2e(outdir)), 0)
         else:
-- 
2.43.0


From 1c901fa58a120f8076882386ea3977038b2507c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:24 +0000
Subject: [PATCH 36/91] fix: resolvingpower_per_order: ignore lost photons when
 locating order 0

---
 marxs/analysis/gratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..0223c63 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -107,6 +107,8 @@ def resolvingpower_per_order(gratings, photons, orders, detector=None,
         # Find position of order 0.
         pg = photons.copy()
         pg = det(pg)
+        # Remove photons that miss a mirror etc.
+        pg = pg[pg['probability'] > 0.]
         zeropos, temp1, temp2 = sigma_clipped_stats(pg[col])
 
     for i, order in enumerate(orders):
-- 
2.43.0


From 235b636d67b1d116372fda5b36ae84e98ca72b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 37/91] fix: facet_table: do not rename the columns of the
 plane passed in

---
 marxs/analysis/coords.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..1a73eb4 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,5 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +73,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # copy, so that the column names are not changed for the plane passed in
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From 242128314ae89eb029af2248c3a5c60f40faa974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:17 +0000
Subject: [PATCH 38/91] fix: ColOrKeyTable: remove stale keyword when a column
 varies again

---
 marxs/reduction/ogip.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..0c4c7d6 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -46,6 +46,9 @@ class OGIPFormatError(Exception):
 class ColOrKeyColumn(Column):
     def __setitem__(self, index, value):
         super().__setitem__(index, value)
+        if self.parent_table is None:
+            # e.g. a copy of a column, there is no table to be updated
+            return
         if np.all(self.data == self.data[0]):
             self._parent_table().meta[self.name] = self.data[0]
             self._parent_table().remove_column(self.name)
@@ -69,7 +72,8 @@ class ColOrKeyTable(QTable):
 
     def __setitem__(self, item, value):
         if isinstance(item, str) and (np.ndim(value) == 0 or
-                                      np.all(np.asanyarray(value) == value[0])):
+                                      (np.size(value) > 0 and
+                                       np.all(np.asanyarray(value) == value[0]))):
             if np.ndim(value) == 0:
                 self.meta[item] = value
             else:
@@ -78,6 +82,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            if isinstance(item, str):
+                # Remove value of a previously constant column
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From c4d5ace73a8f0063f3ee1cfffdbd43292db240af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 39/91] fix: ARF: constant SPECRESP stays a column

---
 marxs/reduction/ogip.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 0c4c7d6..4618a4a 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -49,7 +49,8 @@ class ColOrKeyColumn(Column):
         if self.parent_table is None:
             # e.g. a copy of a column, there is no table to be updated
             return
-        if np.all(self.data == self.data[0]):
+        if (np.all(self.data == self.data[0]) and
+                not self._parent_table()._is_required_col(self.name)):
             self._parent_table().meta[self.name] = self.data[0]
             self._parent_table().remove_column(self.name)
         else:
@@ -62,6 +63,12 @@ class ColOrKeyColumn(Column):
 class ColOrKeyTable(QTable):
     Column = ColOrKeyColumn
 
+    required_cols = []
+    '''Required columns (name, dtype, ndim). Those are never moved to the header.'''
+
+    def _is_required_col(self, name):
+        return name in [req[0] for req in self.required_cols]
+
     def __getitem__(self, item):
         if isinstance(item, str) and item in self.meta:
             if item in self.colnames:
@@ -71,9 +78,10 @@ class ColOrKeyTable(QTable):
             return super().__getitem__(item)
 
     def __setitem__(self, item, value):
-        if isinstance(item, str) and (np.ndim(value) == 0 or
-                                      (np.size(value) > 0 and
-                                       np.all(np.asanyarray(value) == value[0]))):
+        if (isinstance(item, str) and not self._is_required_col(item) and
+            (np.ndim(value) == 0 or
+             (np.size(value) > 0 and
+              np.all(np.asanyarray(value) == value[0])))):
             if np.ndim(value) == 0:
                 self.meta[item] = value
             else:
-- 
2.43.0


From 60f1d2462f08f7c0317a2928af1fdbfac57d96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 40/91] fix: RMF: DETCHANS is the number of channels

---
 marxs/reduction/ogip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 4618a4a..8433621 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -243,7 +243,8 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            # number of channels, not number of energy bins
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From f39eea7a1fe6362897272e506a18dc7a076e999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 41/91] fix: RMF: look up rows of matrices in fixed-length
 format, respect TLMIN

---
 marxs/reduction/ogip.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 8433621..64edb63 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -338,6 +338,18 @@ class RMF:
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
+    def _channels_in_row(self, energy):
+        '''Index numbers and matrix values of all channels stored for an energy'''
+        row = self.row(energy)
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        # With at most one channel group per row, F_CHAN and N_CHAN can be
+        # scalars. Fixed-length arrays are padded at the end.
+        f_chan = np.atleast_1d(row['F_CHAN'])[:row['N_GRP']]
+        n_chan = np.atleast_1d(row['N_CHAN'])[:row['N_GRP']]
+        ind = [np.arange(f, f + n) for f, n in zip(f_chan - tlmin, n_chan)]
+        ind = np.concatenate([np.array([], dtype=int)] + ind)
+        return ind, np.asanyarray(row['MATRIX'])[:len(ind)]
+
     @property
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
@@ -357,15 +369,8 @@ class RMF:
             rmf value in each bin
         '''
         rmf = np.zeros(len(self.en_mid))
-        row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        ind, values = self._channels_in_row(energy)
+        rmf[ind] = values
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -382,12 +387,8 @@ class RMF:
         rmf : array
             rmf value in each bin
         '''
-        row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
-        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+        ind, values = self._channels_in_row(energy)
+        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], values
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
@@ -477,8 +478,10 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan, nchan = fchan[:, 0], nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From b3cfa4269b3011810525e1fa4570b931a8627a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:12 +0000
Subject: [PATCH 42/91] fix: RMF.row: allow wavelengths

---
 marxs/reduction/ogip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 64edb63..800e067 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -332,6 +332,8 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
+        # Convert first: for wavelengths, the comparison would be reversed
+        energy = energy.to(u.keV, equivalencies=u.spectral())
         with u.set_enabled_equivalencies(u.spectral()):
             rowind = (energy >= self.matrix['ENERG_LO']) & \
                 (energy < self.matrix['ENERG_HI'])
-- 
2.43.0


From 92be2ce5adb424f244caa860965db28da82e351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 43/91] fix: RMF.from_Gauss_sigma: tables with energy or
 wavelength in other units

---
 marxs/reduction/ogip.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 800e067..d7aa44b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -517,9 +517,12 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        # copy, because the input table is modified below
+        sigmatab = sigmatab.copy()
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
+            sigmatab['sigma_wave'] = sigmatab['wave'] * (sigmatab['sigma_energy'].to(u.keV) /
+                                                         sigmatab['energy'].to(u.keV))
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
@@ -527,7 +530,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From cca08aef3e982074ddaf22e7b28beb1c267aba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:28 +0000
Subject: [PATCH 44/91] fix: interpolate LSFPARM tables with several widths
 with current scipy

---
 marxs/reduction/lsfparm.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..671bac0 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,23 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class interp2d_grid:
+    '''2D spline interpolation with the signature of the old `scipy.interpolate.interp2d`
+
+    The degree of the spline is reduced if there are not enough points,
+    e.g. if there are only two WIDTHS. Values outside of the grid are taken
+    from the edge of the grid.
+    '''
+    def __init__(self, x, y, z, kind='cubic'):
+        degree = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
+        self.spline = interpolate.RectBivariateSpline(x, y, z,
+                                                      kx=min(degree, len(x) - 1),
+                                                      ky=min(degree, len(y) - 1))
+
+    def __call__(self, x, y):
+        return self.spline(x, y)[0, 0]
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +265,13 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d` (or `interp2d_grid` if the file has
+        more than one WIDTH).
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = interp2d_grid
     else:
         interp = interp1d_2dsignature
 
-- 
2.43.0


From 42ad70272ddfce12dc183a9c2666c40450b4a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 45/91] fix: calculate order-sorting window widths from the
 range

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From 69864fc03285ffa0264790dd67c47f94274bf669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:59 +0000
Subject: [PATCH 46/91] fix: osip_factor returns an array if orders are on
 different sides

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..9dd998e 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(chan_mid_nominal.shape)
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From bda4af4886cb1ac21cd3edb27cfaa9420b1c5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 47/91] fix: L2Abs: area shadowed by bars is at most the open
 area

---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..8507dd9 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -251,7 +251,8 @@ class L2Abs(FlatOpticalElement):
         totalarea = self.period**2 / 2 * np.sqrt(3)
         shadowfraction = shadowarea / totalarea
 
-        return {'probability': openfraction - shadowfraction}
+        # For large angles, the bars shadow the entire area
+        return {'probability': np.clip(openfraction - shadowfraction, 0, 1)}
 
 
 class L2Diffraction(RandomGaussianScatter):
-- 
2.43.0


From bc6bbc63d2007e233234a7ab41b55d7622015db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:24 +0000
Subject: [PATCH 48/91] fix: bend_gratings accepts single gratings

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index d30ca19..ea37a07 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -48,7 +48,7 @@ def bend_gratings(gratings, radius):
         c._geometry = e.geometry._geometry
         e.geometry = c
         e.display['shape'] = 'surface'
-        for e1 in e.elements:
+        for e1 in getattr(e, 'elements', []):
             # can't be the same geometry, because groove_angle is part of _geometry and that's different
             # Maybe need to get that out again and make the geometry strictly the geometry
             # But for now, make a new cylinder of each of them
-- 
2.43.0


From 90a2e7d152b569d52f0b1007be3e1cda1f58fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 49/91] fix: NumericalChirpFinder uses the energy that is
 passed in

---
 marxs/design/bendgratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index ea37a07..29cd65a 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -89,6 +89,7 @@ class NumericalChirpFinder():
         self.photon = generate_test_photons(1)
         self.detector = detector
         self.energy = energy
+        self.photon['energy'] = energy
         self.order = order
         self.base_d = d
         self.colname = colname
-- 
2.43.0


From 9b2ac25c27bfd11febafc551bd2304d7e4491de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:00 +0000
Subject: [PATCH 50/91] fix: chirp_gratings: any number of positions in uarray

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 29cd65a..ce69f4b 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -176,7 +176,7 @@ def chirp_gratings(gratings, optimizer, d,
     '''
     for grat in gratings:
         corr = optimizer(grat, uarray, varray)
-        corr = np.tile(corr[:, 0], (3, 1)).T
+        corr = np.tile(corr[:, 0], (len(uarray), 1)).T
         ly = np.linalg.norm(grat.geometry['v_y'])
         lz = np.linalg.norm(grat.geometry['v_z'])
         grat.fitted_d_corr = corr
-- 
2.43.0


From 8444b5c52e946d1944f841f4a41e6e4abdc34d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:51 +0000
Subject: [PATCH 51/91] fix: chirp_gratings: keep an order selector that was
 changed after an earlier chirp

---
 marxs/design/bendgratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index ce69f4b..2bbe487 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -192,3 +192,5 @@ def chirp_gratings(gratings, optimizer, d,
         # see https://stackoverflow.com/questions/972/adding-a-method-to-an-existing-object-instance
         grat._d = func.__get__(grat)
         grat.order_selector = grat.original_orderselector
+        # The order selector might be changed before the next time this is run
+        del grat.original_orderselector
-- 
2.43.0


From ba8b89d6ebb224be9b29fa2e34bc8d3490d03947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:18 +0000
Subject: [PATCH 52/91] fix: BendNumericalChirpFinder and chirp_gratings for
 bend gratings

---
 marxs/design/bendgratings.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 2bbe487..43c192d 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -156,7 +156,7 @@ class NumericalChirpFinder():
 class BendNumericalChirpFinder(NumericalChirpFinder):
     def posongrat(self):
         trans, rot, zoom, shear = decompose44(self.grat.geometry.pos4d)
-        p_lim = self.grat.geometry.phi_limits
+        p_lim = self.grat.geometry.coos_limits[0]
         p_center = np.mean(p_lim)
         # Not accounting for 2 pi wrap and crazy stuff
         p_half = (p_lim[1] - p_lim[0]) / 2
@@ -177,7 +177,11 @@ def chirp_gratings(gratings, optimizer, d,
     for grat in gratings:
         corr = optimizer(grat, uarray, varray)
         corr = np.tile(corr[:, 0], (len(uarray), 1)).T
-        ly = np.linalg.norm(grat.geometry['v_y'])
+        if isinstance(grat.geometry, Cylinder):
+            # local coordinates of bend gratings are (phi, z)
+            ly = np.ptp(grat.geometry.coos_limits[0]) / 2
+        else:
+            ly = np.linalg.norm(grat.geometry['v_y'])
         lz = np.linalg.norm(grat.geometry['v_z'])
         grat.fitted_d_corr = corr
         grat.spline = RectBivariateSpline(ly * uarray, lz * uarray,
-- 
2.43.0


From da56a62e82c81c04eccc7c56cfbc4bd29e607320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 53/91] fix: L2Abs: rays with normal incidence

---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 8507dd9..1fed2e7 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -242,7 +242,8 @@ class L2Abs(FlatOpticalElement):
 
         p3 = norm_vector(photons['dir'].data[intersect])
         ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
-        angle = np.arccos(np.abs(np.einsum("ij,ij->i", p3, en)))
+        # Rounding can give values > 1 for normal incidence
+        angle = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", p3, en)), 0, 1))
 
         # fractional area NOT covered by the hexagon structure
         openfraction = (self.innerfree / self.period)**2
-- 
2.43.0


From 0fc957083f1755a15a6577750cb162d363e1e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:05 +0000
Subject: [PATCH 54/91] fix: LissajousDither: dither in roll and empty photon
 lists

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..424107a 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = (len(roll) > 0) and np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value)
+        if constant_roll:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From 2eabda239a78bea695817cc1f6b3deca37390a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 55/91] fix: LissajousDither: use reference_transform for the
 direction of photons

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 424107a..7948c57 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -129,7 +129,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From 29c6c3101b5c12a0fe7ba5387a30426ccefd2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 56/91] fix: Chandra fits headers: dict iteration, observation
 keywords, column sorting

---
 marxs/missions/chandra/fitsheaders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..b5d06f7 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -75,6 +75,7 @@ def complete_O(header):
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
@@ -87,7 +88,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header.keys()):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
@@ -208,4 +209,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 3ab3402a1a14c8a033d12005038a943466f1716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 57/91] fix: LissajousDither.write_asol: pointing is an array
 in rad without units

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 7948c57..d6c91f4 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From d9d01a338b7a1cb8aece83b80c4a4776d630c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 58/91] fix: Chandra: write mission keywords when photons are
 processed

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
-- 
2.43.0


From 005d2406700c09b01b82be7e1dd52c643640833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:38 +0000
Subject: [PATCH 59/91] fix: ACIS: detector offsets, header keywords and chip
 selection

---
 marxs/missions/chandra/det_acis.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..35e020a 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,18 +83,21 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
         # Use 0.024 because that's more consistent with 1024 pix
         kwargs['elem_args'] = {'pixsize': 0.024 } # {'pixsize': 0.023985 }
 
-        super().__init__(**kwargs)
         self.chips = chips
-        self.elements = [self.elements[i] for i in chips]
+        super().__init__(**kwargs)
+
+    def generate_elements(self):
+        super().generate_elements()
+        self.elements = [self.elements[i] for i in self.chips]
 
     def get_corners(self):
         '''Get the coordinates of the ACIS pixel corners.
@@ -149,8 +152,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons, *args, **kwargs):
+        photons = super().__call__(photons, *args, **kwargs)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From 4907ce275ce622ba9731e04c868054761d65296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:07 +0000
Subject: [PATCH 60/91] fix: threejsjson: plot containers and write photon
 metadata

---
 marxs/visualization/threejsjson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..af788c3 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = dict(photons.meta)
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
-- 
2.43.0


From c1e63dab4cac598aa4d733dd5bbfeda5a71b1a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:35 +0000
Subject: [PATCH 61/91] fix: threejsjson.torus: range of angles, order of
 parameters and matrix

---
 marxs/visualization/threejsjson.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index af788c3..009e19c 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -132,7 +132,7 @@ def triangulation(obj, display):
     return out
 
 
-def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
+def torus(obj, display):
     '''Describe a (possibly incomplete) torus.
 
     The plot range for theta and phi is taken from the values for ``coo1`` and ``coo2``
@@ -148,10 +148,14 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     out['material'] = 'MeshStandardMaterial'
     out['materialproperties'] = threejs.materialdict(display, out['material'])
     out['geometry'] = 'ModifiedTorusBufferGeometry'
+    thetaarc = theta[-1] - theta[0]
+    phiarc = phi[-1] - phi[0]
+    # In three.js, "arc" goes around the axis of the torus (phi) and
+    # "radialarc" around the tube (theta). Use about one segment per degree.
     out['geometrypars'] = (obj.R, obj.r,
-                           int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
-                           theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+                           int(np.ceil(np.rad2deg(thetaarc))), int(np.ceil(np.rad2deg(phiarc))),
+                           phiarc, phi[0], thetaarc, theta[0])
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From b436c4bcefd526e233138d8d264afdb6d44d88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:11 +0000
Subject: [PATCH 62/91] fix: x3d: color of rays with one scalar per node,
 return the scene

---
 marxs/visualization/x3d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..557d97b 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -246,6 +246,7 @@ def indexed_triangle_set(xyz, index, display, *, scene):
                      geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                      index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                      solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -279,6 +280,7 @@ def surface(obj, display, *, scene):
                                         x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                         coordIndex=list(coordIndex),
                                         solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -345,6 +347,7 @@ def box(obj, display, *, scene):
         ),
     )
     scene.children.append(shape)
+    return scene
 
 @empty_scene
 @format_doc(doc_plot)
@@ -423,7 +426,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From 3968b436e0b9f8c79de91321029875e50bfe01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:12 +0000
Subject: [PATCH 63/91] fix: threejs: errors in functions that write javascript

---
 marxs/visualization/threejs.py | 44 ++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 43dc549..37941b6 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -40,6 +40,7 @@ listofproperties = {'Material': ['id', 'name', 'opacity', 'transparent', 'blendi
 def array2string(array):
     '''Flatten array and return string representation for insertion into js.'''
     return np.array2string(array.flatten(), max_line_width=1000, separator=',',
+                           threshold=array.size + 1,
                            formatter={'float_kind': '{0:.1f}'.format})
 
 def materialdict(display, material):
@@ -88,7 +89,9 @@ def materialspec(display, material):
         String that can be pasted into javasript files.
     '''
     matdict = materialdict(display, material)
-    spec = ['{0} : {1}'.format(k, matdict[v]) for k in matdict]
+    if 'color' in matdict:
+        matdict['color'] = "'{0}'".format(matdict['color'])
+    spec = ['{0} : {1}'.format(k, matdict[k]) for k in matdict]
     return ', '.join(spec)
 
 def _format_plot_rays_input(data, scalar, cmap, prop):
@@ -139,7 +142,7 @@ def plot_rays(data, outfile, scalar=None, cmap=None,
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prob)
+    data, s_rgb, prop, n = _format_plot_rays_input(data, scalar, cmap, prop)
     material = materialspec(prop, 'LineBasicMaterial')
 
     for i in range(n):
@@ -178,10 +181,7 @@ def plot_object(obj, display, outfile, **kwargs):
     correct plotting method for its shape. Javascript code to generate the correct
     represenation in three.js is added to the open file ``outfile``.
     '''
-    if 'outfile' not in kwargs:
-        raise TypeError('Required argument "outfile" missing.')
-    out = plot_object_general(plot_registry, obj, display=display,outfile=outfile, **kwargs)
-    return out
+    return utils.plot_object_general(plot_registry, obj, display=display, outfile=outfile, **kwargs)
 
 
 @format_doc(doc_plot)
@@ -192,29 +192,29 @@ def container(obj, display, outfile):
     (if it is a container). We need to flatten the list here to avoid
     arbitrarily deep recursion.
     '''
-    return [plot_obj(e, e.display, outfile) for e in obj.elements]
+    return [plot_object(e, None, outfile) for e in obj.elements]
 
 @format_doc(doc_plot)
-def box(obs, display, outfile):
+def box(obj, display, outfile):
     '''Output three.js commands to include a box-shaped optical element.'''
     matrixstring = ', '.join([str(i) for i in obj.pos4d.flatten()])
     if not ('side' in display):
-        display['side'] = 'THREE.DoubleSide'
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+        display = {**display, 'side': 'THREE.DoubleSide'}
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('''
     var geometry = new THREE.BoxGeometry( 2, 2, 2 );
     var material = new THREE.MeshStandardMaterial( {{ {materialspec} }} );
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(materialspec=material,
                                  matrix=matrixstring))
 
 @format_doc(doc_plot)
 def triangulation(obj, display, outfile):
     '''Output commands for a plane with an inner hole.'''
     xyz, triangles = obj.geometry.triangulate(display)
-    materialspec = materialspec(display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
     outfile.write('// {}\n'.format(obj.name))
     outfile.write('var geometry = new THREE.BufferGeometry(); \n')
     outfile.write('var vertices = new Float32Array([')
@@ -235,7 +235,7 @@ def triangulation(obj, display, outfile):
     outfile.write('''var material = new THREE.MeshStandardMaterial({{ {materialspec} }});
         var mesh = new THREE.Mesh( geometry, material );
         scene.add( mesh );
-        '''.format(materialspec=materialspec))
+        '''.format(materialspec=material))
 
 @format_doc(doc_plot)
 def torus(obj, display, outfile):
@@ -247,14 +247,16 @@ def torus(obj, display, outfile):
     '''
     theta = display.get('coo1', [0, 2 * np.pi])
     phi = display.get('coo2', [0, 2 * np.pi])
-    materialspec = materialspec(obj.display, 'MeshStandardMaterial')
+    material = materialspec(display, 'MeshStandardMaterial')
+    thetaarc = theta[-1] - theta[0]
+    phiarc = phi[-1] - phi[0]
     torusparameters = '{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}'.format(obj.R, obj.r,
-                                                                      int(np.rad2deg(theta[1])),
-                                                                      int(np.rad2deg(phi[1])),
-                                                                      theta[1],
-                                                                      theta[0],
-                                                                      phi[1],
-                                                                      phi[0])
+                                                                      int(np.ceil(np.rad2deg(thetaarc))),
+                                                                      int(np.ceil(np.rad2deg(phiarc))),
+                                                                      phiarc,
+                                                                      phi[0],
+                                                                      thetaarc,
+                                                                      theta[0])
     rot = np.array([[1,0,0,0],[0,0,1,0],[0,1,0,0],[0,0,0,1.]])
     matrixstring = ', '.join([str(i) for i in np.dot(obj.pos4d, rot).flatten()])
 
@@ -264,7 +266,7 @@ def torus(obj, display, outfile):
     var mesh = new THREE.Mesh( geometry, material );
     mesh.matrixAutoUpdate = false;
     mesh.matrix.set({matrix});
-    scene.add( mesh );'''.format(materialspec=materialspec,
+    scene.add( mesh );'''.format(materialspec=material,
                                  torusparameters=torusparameters,
                                  matrix=matrixstring))
 
-- 
2.43.0


From 3247331f5eb7c314ae321ff61a66178fcf1a6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:38 +0000
Subject: [PATCH 64/91] fix: Baffle: plot as plane with hole

---
 marxs/optics/baffles.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/marxs/optics/baffles.py b/marxs/optics/baffles.py
index e49a4a3..c951ca4 100644
--- a/marxs/optics/baffles.py
+++ b/marxs/optics/baffles.py
@@ -2,8 +2,7 @@
 import numpy as np
 
 from .base import FlatOpticalElement
-from ..math.utils import h2e
-from ..visualization.utils import plane_with_hole
+from ..math.geometry import RectangleHole
 
 
 class Baffle(FlatOpticalElement):
@@ -19,8 +18,9 @@ class Baffle(FlatOpticalElement):
 
     display = {'color': (1., 0.5, 0.4),
                'outer_factor': 3,
-               'shape': 'plane with hole'}
+               'shape': 'triangulation'}
 
+    default_geometry = RectangleHole
 
     def process_photons(self, photons, intersect, intercoos, interpoos):
         photons['pos'][intersect] = intercoos[intersect]
@@ -40,16 +40,4 @@ class Baffle(FlatOpticalElement):
         triangles : np.array
             Array of index numbers that define triangles
         '''
-        r_out = self.display.get('outer_factor', 3)
-        g = self.geometry
-        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) - h2e(g['v_y']),
-                                                      h2e( g['v_x']) - h2e(g['v_y'])
-        ])
-        inner =  h2e(g['center']) + np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) - h2e(g['v_y']),
-                                               h2e( g['v_x']) - h2e(g['v_y'])
-        ])
-        return plane_with_hole(outer, inner)
+        return self.geometry.triangulate(self.display)
-- 
2.43.0


From 7e75edf66ca21b725e5973ea43c31999227e2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 65/91] fix: plane_with_hole: connect points that are close to
 each other

---
 marxs/visualization/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..5f5dee2 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -251,16 +251,17 @@ def plane_with_hole(outer, inner):
     xyz = np.vstack([outer, inner])
 
     i_in = 0
-    i_out = 0
-    for i in range(n_out + n_in):
-        if i/n >= i_in/n_in:
-            triangles[i, :] = [i_out, n_out + i_in, n_out + ((i_in + 1) % n_in)]
+    # Connect each point to the nearest points on the other boundary
+    i_out = max(0, int(np.ceil(n_out / n_in / 2 - 0.5)))
+    for i in range(n):
+        if (i_in + 0.5) / n_in <= (i_out + 0.5) / n_out:
+            triangles[i, :] = [i_out % n_out, n_out + i_in, n_out + ((i_in + 1) % n_in)]
             i_in += 1
         else:
             # Note that the order of the points is reversed here
             # to match the orientation of the outer boundary for the case above.
-            triangles[i, :] = [(i_out + 1) % n_out, i_out, n_out + (i_in % n_in)]
-            i_out = (i_out + 1) % n_out
+            triangles[i, :] = [(i_out + 1) % n_out, i_out % n_out, n_out + (i_in % n_in)]
+            i_out += 1
     return xyz, triangles
 
 
-- 
2.43.0


From 2f9786b80e495c0942ddf9deb56ee2fa818e9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:39 +0000
Subject: [PATCH 66/91] fix: combine_disjoint_triangulations with different
 numbers of points

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index 5f5dee2..50e20de 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -291,8 +291,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz[:-1]])
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 509577d7b7d1fc473707a30aa3dbe295b832284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 67/91] fix: TagVersion writes ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..4d8c121 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From 987da956365674cd90e51848861a9e8554f624af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:29 +0000
Subject: [PATCH 68/91] fix: angle_line_plane works for arrays of lines and for
 parallel vectors

---
 marxs/math/pluecker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/math/pluecker.py b/marxs/math/pluecker.py
index 302448f..15e954d 100644
--- a/marxs/math/pluecker.py
+++ b/marxs/math/pluecker.py
@@ -19,9 +19,11 @@ def angle_line_plane(p_line, h_plane):
     -------
     angle : array-like
     '''
-    l = p_line[:3]
+    l = p_line[..., :3]
     p = h_plane[:3]
-    return np.arccos(np.dot(l, p) / (np.linalg.norm(l) * np.linalg.norm(p)))
+    cosang = np.dot(l, p) / (np.linalg.norm(l, axis=-1) * np.linalg.norm(p))
+    # Rounding errors can make the value slightly larger than 1
+    return np.arccos(np.clip(cosang, -1, 1))
 
 
 #  @ L = {U:V}, with 3-tuples U and V, with U.V = 0, and with U non-null.
-- 
2.43.0


From b37b5e892e55db114edeeec9813729b3560250c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 69/91] fix: Lynx: adapt to the design classes so that the
 model can be built

---
 marxs/missions/lynx/lynx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..87c246a 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,7 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
+                       'guess_distance': 1e4,
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,7 +133,11 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
+        # y_range is given in global coordinates
+        y_offset = conf['rowland'].geometry['center'][1]
+        det_kwargs = dict(conf['det_kwargs'])
+        det_kwargs['y_range'] = np.array(det_kwargs['y_range']) - y_offset
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **det_kwargs,
                                               guess_distance=25.)
 
 
-- 
2.43.0


From b5e44e618b4f9a1debf869eb254603496602227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:07 +0000
Subject: [PATCH 70/91] fix: Lynx: number shells by serial number, as
 MetaShellEfficiency expects

---
 marxs/missions/lynx/mirror.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..ad78449 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -20,6 +20,8 @@ class MetaShellAperture(optics.MultiAperture):
                     for shell in metashellgeometry]
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
+        # ids are the serial numbers, see MetaShellEfficiency
+        kwargs['id_num_offset'] = metashellgeometry['Metashell Serial Number'][0]
         super().__init__(**kwargs)
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
-- 
2.43.0


From cc54571063092367be7c567bfa49bef023be90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:09 +0000
Subject: [PATCH 71/91] fix: Boom: report unknown dimensions

---
 marxs/missions/arcus/boom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..d691999 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -52,7 +52,7 @@ class ThreeSidedBoom(Parallel):
             if hasattr(self, k):
                 setattr(self, k, boom_dims[k])
             else:
-                raise ValueError('{} has not attribute {}'.format(self.name, k))
+                raise ValueError('{} has not attribute {}'.format(self.__class__.__name__, k))
         kwargs['elem_pos'] = self.pos_spec()
         kwargs['elem_class'] = Rod
         kwargs['elem_args'] = {}
-- 
2.43.0


From 3cb65d5da6da8d87bc5e49b7a05bf2b1018e7733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:26 +0000
Subject: [PATCH 72/91] fix: Boom: rods are cylinders along their length

---
 marxs/missions/arcus/boom.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index d691999..91a4149 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -6,11 +6,12 @@ from transforms3d.affines import compose
 from marxs.optics import OpticalElement
 from marxs.simulator import Parallel
 from marxs.math.geometry import Cylinder
+from marxs.math.utils import xyz2zxy
 
 
 class Rod(OpticalElement):
-    '''X-axis of the rod is the cylinder axis (x-zoom gives half-length)
-    y zoom and z zoom have to be the same (no elliptical cylinders)
+    '''Z-axis of the rod is the cylinder axis (z-zoom gives half-length)
+    x zoom and y zoom have to be the same (no elliptical cylinders)
     '''
     outcol = 'hitrod'
     display = {'shape': 'cylinder', 'color': 'black'}
@@ -99,7 +100,9 @@ class ThreeSidedBoom(Parallel):
                 rot = euler2mat((i * 2) * np.pi / self.n_sides, 0, 0, 'sxyz')
                 affmat = compose(trans, rot, np.ones(3))
                 for p in self.one_window():
-                    fullboompos4d.append(np.dot(affmat, p))
+                    # one_window has rods along x, but the axis of a
+                    # Cylinder is z
+                    fullboompos4d.append(np.dot(affmat, p) @ xyz2zxy.T)
 
         return fullboompos4d
 
-- 
2.43.0


From c779aa9c281caf59630e2a9dcfaffce670b4b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:12 +0000
Subject: [PATCH 73/91] fix: Lynx, AXIS: place CCDs on the Rowland circle

---
 marxs/missions/AXIS/AXIS.py | 2 +-
 marxs/missions/lynx/lynx.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index dfe05b5..9673eb7 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -120,7 +120,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
                          d_element=conf['det_kwargs']['d_element'],
                          elem_args=conf['det_kwargs']['elem_args'],
                          elem_class=conf['det_kwargs']['elem_class'],
-                         guess_distance=25.,
+                         guess_distance=-25.,
                          id_col='CCD_ID')
 
 
diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 87c246a..746b855 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -138,7 +138,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
         det_kwargs = dict(conf['det_kwargs'])
         det_kwargs['y_range'] = np.array(det_kwargs['y_range']) - y_offset
         super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **det_kwargs,
-                                              guess_distance=25.)
+                                              guess_distance=-25.)
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From cbd54e102778661db403f5b2a7b67dad7936fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:54 +0000
Subject: [PATCH 74/91] fix: PerfectLensSegment: reflectivity table is in eV

---
 marxs/missions/lynx/mirror.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index ad78449..bcb386e 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -91,7 +91,7 @@ class PerfectLensSegment(optics.PerfectLens):
         refl =  Table.read(get_pkg_data_filename(f"data/{conf['mirrorcoating']}"),
                            format='ascii.ecsv')
         self.reflectivity_interpolator = RectBivariateSpline(
-            refl["energy"],
+            refl["energy"].to("keV").value,
             [np.deg2rad(float(c)) for c in refl.colnames[1:]],
             np.stack([refl[c] for c in refl.columns[1:]]).T,
         )
-- 
2.43.0


From 349135e7143a5bb4fe415603b4d9406f47a7bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:16 +0000
Subject: [PATCH 75/91] fix: PerfectLensSegment: avoid reflectivities above 1

---
 marxs/missions/lynx/mirror.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index bcb386e..937e31f 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -94,4 +94,6 @@ class PerfectLensSegment(optics.PerfectLens):
             refl["energy"].to("keV").value,
             [np.deg2rad(float(c)) for c in refl.colnames[1:]],
             np.stack([refl[c] for c in refl.columns[1:]]).T,
+            # Cubic splines overshoot to values > 1 at the absorption edges
+            kx=1, ky=1,
         )
-- 
2.43.0


From 05cf3801d9e29d9ac1c1b679af8b537bc067b90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:37 +0000
Subject: [PATCH 76/91] fix: Normal vectors of elliptical cylinders are
 perpendicular to the surface

---
 marxs/math/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 3780123..82941f8 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -616,6 +616,7 @@ class Cylinder(Geometry):
         e_n = np.array([np.cos(phi), np.sin(phi), zeros, zeros]).T
 
         e_phi = np.einsum('...ij,...j', self.pos4d, e_phi)
-        e_n = np.einsum('...ij,...j', self.pos4d, e_n)
+        # normals transform with the inverse transpose (profile can be elliptical)
+        e_n[:, :3] = e_n[:, :3] @ np.linalg.inv(self.pos4d[:3, :3])
         # e_z is already in the local coordinate system
         return norm_vector(e_phi), e_z, norm_vector(e_n)
-- 
2.43.0


From 634ea691e540f59b733dd60a15c7d632fb446275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:54 +0000
Subject: [PATCH 77/91] fix: threejs plot_rays leaves the properties passed in
 unchanged

---
 marxs/visualization/threejs.py     | 2 +-
 marxs/visualization/threejsjson.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/threejs.py b/marxs/visualization/threejs.py
index 37941b6..feca948 100644
--- a/marxs/visualization/threejs.py
+++ b/marxs/visualization/threejs.py
@@ -115,7 +115,7 @@ def _format_plot_rays_input(data, scalar, cmap, prop):
     s_rgb = cmap(normalizer(s))
 
     if 'vertexColors' not in prop:
-        prop['vertexColors'] = 2 # 2 = 'THREE.VertexColors'
+        prop = dict(prop, vertexColors=2)  # 2 = 'THREE.VertexColors'
 
     return data, s_rgb, prop, n
 
diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 009e19c..cc52be6 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -186,7 +186,7 @@ def plot_rays(data, scalar=None, prop={}, name='Photon list', cmap=None):
         If ``None`` the default matplotlib colormap will be used, otherwise the colormap
         can be specified in this keyword.
     '''
-    data, s_rgb, prob, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
+    data, s_rgb, prop, n = threejs._format_plot_rays_input(data, scalar, cmap, prop)
 
     out = {}
     out['n'] = n
-- 
2.43.0


From f15f79441fab24850f2a7fc6f9405e86335dbc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:08 +0000
Subject: [PATCH 78/91] fix: Parallel: each instance has its own uncertainty
 matrix

---
 marxs/simulator/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 062ab9f..997f56d 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -355,6 +355,8 @@ class Parallel(BaseContainer):
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
+        # copy class attribute to instance attribute
+        self.uncertainty = np.array(self.uncertainty)
         self.elem_uncertainty = [np.eye(4) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From 4b443c4572b1a56845338f44e6ab2e456d18972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 79/91] fix: aeffRfromraygrid accepts a list of orders as
 documented

---
 marxs/missions/arcus/analyze_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..ee45c87 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -133,6 +133,7 @@ def aeffRfromraygrid(inpath, conf,
     out : `astropy.table.QTable`
         Table with instrument performance metrics
     '''
+    orders = np.asarray(orders)
     rayfiles = glob.glob(os.path.join(inpath, 'wave*.fits'))
     rayfiles.sort()
     r0 = Table.read(rayfiles[0])
-- 
2.43.0


From 0440066b670e3ea4b9e346596f62b75e1893d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:19 +0000
Subject: [PATCH 80/91] fix: Arcus RegularGrid: gratings of the mirrored
 channels are below the mirrors

---
 marxs/missions/arcus/ralfgrating.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index b9f8e77..be950dd 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -138,12 +138,11 @@ class RegularGrid(Sequence):
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
-            is_m = -1 if 'm' in chan else +1
             gratinggrid['rowland'] = conf['rowland_' + chan]
             b = blazematm if 'm' in chan else blazemat
             gratinggrid['elem_args']['orientation'] = b
             gratinggrid['normal_spec'] = conf['pos_opt_ax'][chan].copy()
-            gratinggrid['guess_distance'] = is_m * (conf['rowland_central'].r + conf['rowland_central'].R)
+            gratinggrid['guess_distance'] = conf['rowland_central'].r + conf['rowland_central'].R
 
             y_range = [-grid_width_y, grid_width_y]
             z_range = [sig * (rmid - grid_width_z),
-- 
2.43.0


From b857fb08101a94fc620d6865eb611c8227301c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:31 +0000
Subject: [PATCH 81/91] fix: AXIS: imaging detector writes coordinates and
 pixels to different columns

---
 marxs/missions/AXIS/AXIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index 9673eb7..22aa8e1 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -127,7 +127,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
 imaging = FlatDetector(zoom=[1, 15, 15], pixsize=0.008)
 # zero-order detector based on https://axis.astro.umd.edu/images/proposal.pdf
 imaging.loc_coos_name = ['imaging_x', 'imaging_y']
-imaging.detpix_name = ['imaging_x', 'imaging_y']
+imaging.detpix_name = ['imagingpix_x', 'imagingpix_y']
 
 
 # Place an additional detector on the Rowland circle.
-- 
2.43.0


From 210f7aa8100caba3b37bb80e50b1a8548e59f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:15 +0000
Subject: [PATCH 82/91] fix: Lynx: all configurations have an alignment budget

---
 marxs/missions/lynx/lynx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 746b855..5aa7a3d 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -277,4 +277,5 @@ align_requirement_in = [
 align_requirement = copy.deepcopy(align_requirement_in)
 reformat_errorbudget(align_requirement)
 
-conf['alignmentbudget'] = align_requirement
+for c in [conf, conf_5050, conf_chirp]:
+    c['alignmentbudget'] = align_requirement
-- 
2.43.0


From a86803a2b6dcc17b4c7a0dbbb3d6d3b020da24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 83/91] fix: Lynx: gratings are chirped when the configuration
 asks for it

---
 marxs/missions/lynx/lynx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 5aa7a3d..24bb334 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, catsupportbars, l1_order_selector,
+                                              NonParallelCATGrating)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -201,7 +202,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From 82c325089b5e69f8fab646fe6aeb902488f3d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:50 +0000
Subject: [PATCH 84/91] fix: Lynx: number of the CCD is not written over the
 number of the grating

---
 marxs/missions/lynx/lynx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 24bb334..13b83fd 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -138,6 +138,7 @@ class RowlandDetArray(design.rowland.RectangularGrid):
         y_offset = conf['rowland'].geometry['center'][1]
         det_kwargs = dict(conf['det_kwargs'])
         det_kwargs['y_range'] = np.array(det_kwargs['y_range']) - y_offset
+        det_kwargs.setdefault('id_col', 'CCD_ID')
         super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **det_kwargs,
                                               guess_distance=-25.)
 
-- 
2.43.0


From 2d3f2786a82a3a0035f4be427d781c303ce8e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:57 +0000
Subject: [PATCH 85/91] fix: ThinLens does not test for the intersection twice

---
 marxs/optics/mirror.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 5e1b1bb..59bcf93 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -126,7 +126,10 @@ class ThinLens(FlatOpticalElement):
         super().__init__(**kwargs)
 
     def process_photon(self, dir, pos, energy, polarization):
-        intersect, h_intersect, loc_inter = self.geometry.intersect(dir, pos)
+        # It is known already that the photon hits. Testing again could give a
+        # different answer for a photon that starts on the surface of the lens.
+        e_x = self.geometry['e_x']
+        h_intersect = pos + np.dot(self.geometry['center'] - pos, e_x) / np.dot(dir, e_x) * dir
         distance = distance_point_point(h_intersect,
                                         self.geometry['center'][np.newaxis, :])
         if distance == 0.:
-- 
2.43.0


From 42c5e416710153c749a4ad751708447f5d719db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:38 +0000
Subject: [PATCH 86/91] fix: Lynx, Arcus: configuration is not changed when
 gratings are placed

---
 marxs/missions/arcus/ralfgrating.py | 3 ++-
 marxs/missions/lynx/lynx.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index be950dd..95b32d4 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -134,7 +134,8 @@ class RegularGrid(Sequence):
                                np.deg2rad(-conf['blazeang']))
         blazematm = axangle2mat(np.array([0, 0, 1]),
                                 np.deg2rad(conf['blazeang']))
-        gratinggrid = conf['gratinggrid']
+        gratinggrid = dict(conf['gratinggrid'])
+        gratinggrid['elem_args'] = dict(gratinggrid['elem_args'])
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 13b83fd..ba6cda8 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -109,7 +109,9 @@ conf_chirp['chirp_order'] = -5.4
 
 class LynxGAS(CircularMeshGrid):
     def __init__(self, conf):
-        gg = conf['gas_kwargs']
+        # Copy, because the configuration may be used for other instruments, too
+        gg = dict(conf['gas_kwargs'])
+        gg['elem_args'] = dict(gg['elem_args'])
         # Add in / update keywords that are calculated based on other conf
         # entries
         gg['rowland'] = conf['rowland']
-- 
2.43.0


From 752366ef1cf8cf5647c625a85ce04a91172c9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:52 +0000
Subject: [PATCH 87/91] fix: Arcus: CCDs do not share one display dictionary

---
 marxs/missions/arcus/arcus.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/marxs/missions/arcus/arcus.py b/marxs/missions/arcus/arcus.py
index d903aa0..6f1a6d0 100644
--- a/marxs/missions/arcus/arcus.py
+++ b/marxs/missions/arcus/arcus.py
@@ -333,10 +333,8 @@ class Det16(DetMany):
         super(Det16, self).__init__(conf, **kwargs)
         assert len(self.elements) == 16
         # but make real detectors orange
-        disp = deepcopy(self.elements[0].display)
-        disp['color'] = 'orange'
         for e in self.elements:
-            e.display = disp
+            e.display['color'] = 'orange'
 
 
 class DetCamera(ParallelCalculated):
@@ -381,10 +379,8 @@ class DetCamera(ParallelCalculated):
                          )
         assert len(self.elements) == conf['n_CCDs']
         # but make real detectors orange
-        disp = deepcopy(self.elements[0].display)
-        disp['color'] = 'orange'
         for e in self.elements:
-            e.display = disp
+            e.display['color'] = 'orange'
 
 
 class FocalPlaneDet(marxs.optics.FlatDetector):
-- 
2.43.0


From ce556096d6f263e9ed148dcef26747c4a54aaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:06 +0000
Subject: [PATCH 88/91] fix: Lynx, AXIS: mirror weights have their own display

---
 marxs/missions/AXIS/AXIS.py   | 1 +
 marxs/missions/lynx/mirror.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index 22aa8e1..bb71a67 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -146,6 +146,7 @@ flatdet.display['shape'] = 'None'
 
 class MirrorGeometricScaling(MarxsElement):
     def __init__(self, conf):
+        super().__init__()
         self.scale = conf['mirrorgeometricscaling']
 
     def __call__(self, photons):
diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 937e31f..0f63755 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -57,6 +57,7 @@ class MetaShellMirror(optics.FlatStack):
 
 class MetaShellEfficiency(SimulationSequenceElement):
     def __init__(self, conf):
+        super().__init__()
         data = conf['metashellgeometry']
         eff = conf['metashelleff']
         aeff = np.stack([eff[str(c)].data for c in data['Metashell Serial Number']])
-- 
2.43.0


From 6b9b2d0ecd793f274b39242b553dc8f8b1213640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:21 +0000
Subject: [PATCH 89/91] fix: MarxMirror: probability is not squared,
 polarization in global coordinates

---
 marxs/optics/marx.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/marxs/optics/marx.py b/marxs/optics/marx.py
index 0cd9cc4..dd132e5 100644
--- a/marxs/optics/marx.py
+++ b/marxs/optics/marx.py
@@ -184,17 +184,15 @@ class MarxMirror(OpticalElement, BaseAperture):
 
     def __call__(self, photons_in, verbose=0):
         self.add_colpos(photons_in)
-        new_photons = self._process_photons_in_c(photons_in, verbose)
+        if 'tag' not in photons_in.colnames:
+            photons_in['tag'] = np.arange(len(photons_in))
+        # photons are transformed to local coordinates in place
+        new_photons = self._process_photons_in_c(photons_in.copy(), verbose)
         photons = join(new_photons, photons_in, keys='tag',
                        uniq_col_name='{col_name}{table_name}',
                        table_names=['', '_beforemirror'])
-        # Probability column needs special treatment, because the probability
-        # is not just replaced with the new number, it's multiplicative.
-        # First, match tag in to tag after join (which may have fewer photons)
+        # The join is sorted by tag
         insorted = np.argsort(photons_in['tag'])
-        ypos = np.searchsorted(photons_in['tag'][insorted], photons['tag'])
-        indices = insorted[ypos]
-        photons['probability'] *= photons_in['probability'][indices]
         photons['probability'][photons['unreflected'] | photons['mirror_vblocked']] = 0
         pol = parallel_transport(photons_in['dir'][insorted], photons['dir'],
                                  photons_in['polarization'][insorted])
-- 
2.43.0


From 2a64096977978c3a6643c1f835d62529c6042a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:36 +0000
Subject: [PATCH 90/91] fix: mayavi: rods are drawn along their axis

---
 marxs/visualization/mayavi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/mayavi.py b/marxs/visualization/mayavi.py
index 2d2de75..7133e4a 100644
--- a/marxs/visualization/mayavi.py
+++ b/marxs/visualization/mayavi.py
@@ -117,8 +117,8 @@ def cylinder(obj, display, viewer=None):
     '''
     from mayavi import mlab
 
-    x0 = obj.geometry['center'] - obj.geometry['v_x']
-    x1 = obj.geometry['center'] + obj.geometry['v_x']
+    x0 = obj.geometry['center'] - obj.geometry['v_z']
+    x1 = obj.geometry['center'] + obj.geometry['v_z']
     c = mlab.plot3d([x0[0], x1[0]], [x0[1], x1[1]], [x0[2], x1[2]],
                     color=display['color'],
                     tube_radius=np.linalg.norm(obj.geometry['v_y']),
-- 
2.43.0


From c6f3c823039aedd34283d45d99b95245529f1124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:50 +0000
Subject: [PATCH 91/91] fix: weighted_per_order: weights are not truncated for
 integer data

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 0223c63..e002032 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -168,7 +168,7 @@ def weighted_per_order(data, orders, energy, gratingeff):
     if len(energy) != data.shape[1]:
         raise ValueError('Second dimension of "data" must match length of "energy".')
 
-    weights = np.zeros_like(data)
+    weights = np.zeros_like(data, dtype=float)
     for i, o in enumerate(orders):
         ind_o = (gratingeff.orders == o).nonzero()[0]
         if len(ind_o) != 1:
-- 
2.43.0

