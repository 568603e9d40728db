From 51f0aa7156c62d2407dddb69299eed6497c36073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 01/62] fix: add output_columns before processing photons one
 by one

Elements that implement process_photon and declare output_columns raised
KeyError, because the columns were only added after the loop over photons.
---
 marxs/optics/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/optics/base.py b/marxs/optics/base.py
index 29050d0..0069523 100644
--- a/marxs/optics/base.py
+++ b/marxs/optics/base.py
@@ -186,6 +186,7 @@ class OpticalElement(SimulationSequenceElement):
         elif hasattr(self, "process_photon"):
             if isinstance(photons, Row):
                 photons = Table(photons)
+            self.add_output_cols(photons)
             outcols = ['dir', 'pos', 'energy', 'polarization',
                        'probability'] + self.output_columns
             n_intersect = intersect.nonzero()[0]
-- 
2.43.0


From d8707ab36039d9d7b93e4beceb58814bf4801296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 02/62] fix: efficiency files may contain energies without any
 efficiency

The cumulative probability of a row with zero total efficiency was NaN and
selecting an order for a photon with that energy raised a ValueError.
---
 marxs/optics/grating.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..f49de07 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -85,14 +85,18 @@ class EfficiencyFile(object):
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        # Rows where no order has any efficiency are left at 0.
+        norm = np.where(self.totalprob > 0, self.totalprob, 1.)
+        self.cumprob = np.cumsum(self.prob, axis=1) / norm[:, None]
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
         ind = np.empty(len(energies), dtype=int)
         for i, e in enumerate(energies):
             ind[i] = np.argmin(np.abs(self.energy - e))
-            orderind[i] = np.min(np.nonzero(self.cumprob[ind[i]] > np.random.rand()))
+            # For rows without any efficiency, this selects the first order;
+            # the returned probability is 0 in that case.
+            orderind[i] = np.argmax(self.cumprob[ind[i]] > np.random.rand())
         return self.orders[orderind], self.totalprob[ind]
 
 
-- 
2.43.0


From 1e473fe2f55dc50edc8dfbe9672a72a39c80a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:05 +0000
Subject: [PATCH 03/62] fix: CCDRedistNormal draws energies only for the
 photons that hit the chip

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From 2b8d904ec6c1f057773d84b699fa895c032917f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:30 +0000
Subject: [PATCH 04/62] fix: poisson_process hangs if less than one photon is
 expected

---
 marxs/source/basesources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..981d657 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -72,7 +72,7 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         # If we don't have enough numbers right now, add some more.
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=max(1, int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled))))])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From 94f18fcbf1987262d86141381fb38dbcd8add67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:30 +0000
Subject: [PATCH 05/62] fix: lab sources give unit directions, also for cones
 along the z axis

---
 marxs/source/labSource.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..39ff767 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -7,7 +7,7 @@ import transforms3d
 from ..optics.base import FlatOpticalElement
 from .basesources import Source
 from ..math.polarization import polarization_vectors
-from ..math.utils import h2e, e2h
+from ..math.utils import h2e, e2h, norm_vector
 
 
 class FarLabPointSource(Source, FlatOpticalElement):
@@ -51,9 +51,10 @@ class FarLabPointSource(Source, FlatOpticalElement):
                         pos[1, :] - self.sourcePos[1],
                         pos[2, :] - self.sourcePos[2],
                         np.zeros(n)])
+        dir = norm_vector(dir.T)
         photons['pos'] = pos.T
-        photons['dir'] = dir.T
-        photons['polarization'] = polarization_vectors(dir.T, photons['polangle'])
+        photons['dir'] = dir
+        photons['polarization'] = polarization_vectors(dir, photons['polangle'])
         return photons
 
 
@@ -119,6 +120,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.allclose(axis, 0):
+            # self.dir is parallel to z, any axis perpendicular to z works
+            axis = np.array([1., 0., 0.])
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0


From b4b69d24d08a3e0e72c40fb23f70ab0270ab445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 06/62] fix: radial sources place photons at the drawn
 separation from the center

---
 marxs/source/basesources.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 981d657..e0059d9 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -379,14 +379,10 @@ class RadialDistributionSource(AstroSource):
         '''
         photons = super().generate_photons(exposuretime)
 
-        relative_frame = SkyOffsetFrame(origin=self.coords)
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
-                                   frame=relative_frame)
-        origin_coord = relative_coords.transform_to(self.coords)
-        self.set_pos(photons, origin_coord)
+        self.set_pos(photons, self.coords.directional_offset_by(phi, d))
 
         return photons
 
-- 
2.43.0


From b59718077ce17b71cc91d80c9529e8e7a2a054e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 07/62] fix: jitter is perpendicular to the optical axis for
 all coordinate systems

---
 marxs/source/pointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..8f9c9d9 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -199,6 +199,8 @@ class JitterPointing(FixedPointing):
         n = len(photons)
         randang = np.random.rand(n) * 2. * np.pi
         ax = np.vstack([np.zeros(n), np.sin(randang), np.cos(randang)]).T
+        # Jitter axis is perpendicular to the optical axis
+        ax = np.dot(ax, self.reference_transform[:3, :3].T)
         if self.jitter > 0:
             # For comparison it's often useful to run a model with jitter=0
             # but that would fail np.random.normal(scale=0)
-- 
2.43.0


From d0843a411e42bf50655f4d130bd0652ffd6e1e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:46 +0000
Subject: [PATCH 08/62] fix: Parallel.move_center keeps elements in place for
 rotated groups

The positions of the elements are relative to pos4d, so the inverse of the
change has to be applied in the system of the group.
---
 marxs/simulator/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..f2f5599 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,9 +376,11 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
-        self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        # old coordinate system -> new coordinate system
+        change_elem = np.dot(np.linalg.inv(self.pos4d), old_pos4d)
+        self.elem_pos = [np.dot(change_elem, p) for p in self.elem_pos]
         self.generate_elements()
 
     def generate_elements(self):
-- 
2.43.0


From ce82b7d4e91503ae9686167fe265924fb26e7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:46 +0000
Subject: [PATCH 09/62] fix: elements_of_class searches in matching containers,
 too, and respects stop_at_first at all levels

---
 marxs/simulator/simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index f2f5599..ba33f8d 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,10 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From c776370ace692a18d0ce239c95fa9df86cf02007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 10/62] fix: Q_reflection accepts arrays of shape (n, 4)

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..6bfc724 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From 6512fc82bea5d0faba11557c8095a56dfc7ec2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 11/62] fix: parallel_transport passes on keyword arguments

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 6bfc724..836b11d 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From 002af46c4c1df63acf84919cdb6c6b0ba15fafb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 12/62] fix: RectangularGrid with equal limits places one
 element, as documented

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..a6d0452 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -690,8 +690,8 @@ class RectangularGrid(ElementsOnTorus):
         width_y = n_y * self.d_element[0]
         width_z = n_z * self.d_element[1]
 
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]) + np.arange(n_y) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]) + np.arange(n_z) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From 096d00af4fa2ee811a10bdace7da599145b597c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 13/62] fix: RowlandTorus.xyzw2parametric at theta = +-90 deg
 and for intersectvalid=False

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index a6d0452..d69be80 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -267,7 +267,7 @@ class RowlandTorus(MarxsElement, Geometry):
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
         # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
+        s = np.where(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) < self.R, -1., 1.)
         theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
 
         factor = self.R + self.r * np.cos(theta)
@@ -275,7 +275,7 @@ class RowlandTorus(MarxsElement, Geometry):
         ind = factor != 0
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From 0ca76f01ef281e929eed5815b8ce2b9dd559a5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:14 +0000
Subject: [PATCH 14/62] fix: add_offset_double_rowland_channels for more than
 four channels

---
 marxs/design/rowland.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index d69be80..46d4f24 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -530,10 +530,7 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
-            base_rowland = 'rowland_central_m'
+        base_rowland = 'rowland_central_m' if 'm' in channel else 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From 09ce36340948b35123593366f6b77d249e689054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:21 +0000
Subject: [PATCH 15/62] fix: run_tolerances_for_energies2 passed no elements to
 the wiggle function for subclass_ok=True

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..dbbae22 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -442,7 +442,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From b6a667ace81d03f7fd7bc82024cd8fd4f7fe0153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 16/62] fix: ColOrKeyTable returned the old keyword for columns
 that are not constant any longer

---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..9873b2b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            if isinstance(item, str) and item in self.colnames:
+                # Value is in a column now, an old keyword would hide it
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From ddb1019bd4e424557eaf12a8d9a8b5a38362f871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 17/62] fix: RMF.rmf ignored TLMIN, both rmf and full_rmf
 failed for one group per row in fixed-length arrays

---
 marxs/reduction/ogip.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 9873b2b..0909bfe 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -325,6 +325,23 @@ class RMF:
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
+    def _groups(self, row):
+        '''Channel groups of one row
+
+        Row can have F_CHAN and N_CHAN as arrays (possibly padded with 0),
+        lists, or, if there is no row with more than one group, as numbers.
+
+        Returns
+        -------
+        groups : list of tuples
+            For each group, index of the first channel (0 indexed) and
+            number of channels.
+        '''
+        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
+        fchan = np.atleast_1d(row['F_CHAN'])
+        nchan = np.atleast_1d(row['N_CHAN'])
+        return [(fchan[i] - tlmin, nchan[i]) for i in range(row['N_GRP'])]
+
     @property
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
@@ -345,14 +362,10 @@ class RMF:
         '''
         rmf = np.zeros(len(self.en_mid))
         row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        start = 0
+        for first, n in self._groups(row):
+            rmf[first: first + n] = row['MATRIX'][start: start + n]
+            start += n
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -370,11 +383,11 @@ class RMF:
             rmf value in each bin
         '''
         row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
+        ind = np.concatenate([np.zeros(0, dtype=int)] +
+                             [np.arange(first, first + n)
+                              for first, n in self._groups(row)])
         return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+            np.asanyarray(row['MATRIX'])[:len(ind)]
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From bb45b887670a1fc8d52cc9587976aadfed1fd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 18/62] fix: DETCHANS of an RMF is the number of channels, not
 the number of energies

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 0909bfe..c143880 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -231,7 +231,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 13f04a727b7d4878c5ba134f28f3fb8d553664be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 19/62] fix: RMF with a single row of several groups could not
 be written

---
 marxs/reduction/ogip.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index c143880..674241b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -477,8 +477,11 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan = fchan[:, 0]
+            nchan = nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From 6ae8661861a355a359dcead81ef5a419c5eadcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 20/62] fix: RMF.from_Gauss_sigma failed for tables in energy
 space

---
 marxs/reduction/ogip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 674241b..4b24d43 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -516,8 +516,10 @@ class RMF:
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            energy = u.Quantity(sigmatab['energy'])
+            wave = energy.to(u.Angstrom, equivalencies=u.spectral())
+            sigmatab['wave'] = wave
+            sigmatab['sigma_wave'] = (wave * u.Quantity(sigmatab['sigma_energy']) / energy).to(u.Angstrom)
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
-- 
2.43.0


From 2e173eada9c551a740f5745290a29266a761d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 21/62] fix: RMF.from_Gauss_sigma used wavelengths in other
 units as Angstrom

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 4b24d43..e6bb904 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -527,7 +527,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From 2490e79b87ea4e9980db8698e0a381e35f65c6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 22/62] fix: osip_tab of order-sorting regions that are defined
 by their limits

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From dd8abda823f99a65f5dae965a0450d71520d511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:43 +0000
Subject: [PATCH 23/62] fix: RMF rows could not be found for wavelengths

---
 marxs/reduction/ogip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index e6bb904..84468b7 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -319,9 +319,10 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        # Order in wavelength is reversed, so need to compare in energy space
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 2ac0253a9929bc7a152ae10059a6a54a8dd0137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:13 +0000
Subject: [PATCH 24/62] fix: effective area that is the same in all bins was
 lost when writing an ARF

---
 marxs/reduction/ogip.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 84468b7..74cece4 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -68,8 +68,14 @@ class ColOrKeyTable(QTable):
             return super().__getitem__(item)
 
     def __setitem__(self, item, value):
-        if isinstance(item, str) and (np.ndim(value) == 0 or
-                                      np.all(np.asanyarray(value) == value[0])):
+        if isinstance(item, str) and isinstance(value, u.Quantity) and \
+                value.unit != u.dimensionless_unscaled:
+            # A keyword cannot hold the unit
+            is_key = False
+        else:
+            is_key = isinstance(item, str) and (
+                np.ndim(value) == 0 or np.all(np.asanyarray(value) == value[0]))
+        if is_key:
             if np.ndim(value) == 0:
                 self.meta[item] = value
             else:
-- 
2.43.0


From 816d7a2db55147c5f71e0a06fcd941134812cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 25/62] fix: facet_table ignored the position of the container

---
 marxs/analysis/coords.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..f0ac323 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -74,8 +74,10 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
     '''
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
-    facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-    tab = Table({'pos': np.stack(container.elem_pos)[:, :, 3]})
+    # elem_pos is relative to the position of the container
+    pos = np.stack([np.dot(container.pos4d, p) for p in container.elem_pos])[:, :, 3]
+    facetpos = h2e(pos)
+    tab = Table({'pos': pos})
     tab = project_plane(tab)
 
     tab['facet_ang'] = np.arctan2(tab['facet_projy'], tab['facet_projx'])
-- 
2.43.0


From fdddb6d71d39ce61b1bf2bcd8c27c2b05a1d6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 26/62] fix: identify_photon_in_subaperture found no photons
 for negative angles of the sub-aperture

---
 marxs/analysis/gratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..351e67a 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -381,6 +381,7 @@ def identify_photon_in_subaperture(angle, max_ang, ang_0=np.pi / 2):
         to the ``angle=0`` line, which is the most common sub-aperturing layout with
         subaperturing perpendicular to the dispersion direction as ``angle=0``.
     '''
+    ang_0 = np.mod(ang_0, 2 * np.pi)
     indplus = np.isclose(np.mod(angle, 2 * np.pi), ang_0, atol=max_ang)
     indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, atol=max_ang)
     return indplus | indminus
-- 
2.43.0


From f66f10ecbfe7df6ce44bee47550edef5eb053f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:37 +0000
Subject: [PATCH 27/62] fix: resolvingpower_per_order used lost photons for the
 position of order 0 on a given detector

---
 marxs/analysis/gratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 351e67a..a433653 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -107,6 +107,8 @@ def resolvingpower_per_order(gratings, photons, orders, detector=None,
         # Find position of order 0.
         pg = photons.copy()
         pg = det(pg)
+        # Remove photons that miss a mirror etc.
+        pg = pg[pg['probability'] > 0.]
         zeropos, temp1, temp2 = sigma_clipped_stats(pg[col])
 
     for i, order in enumerate(orders):
-- 
2.43.0


From 50c77bee3a979737ec1c117515e5e4b5c734b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:37 +0000
Subject: [PATCH 28/62] fix: resolvingpower_from_photonlist gave NaN for orders
 with exactly 20 photons

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index a433653..8f95735 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -261,7 +261,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From 9691908b8729d7a031716cb5abc9745b1630a9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:46 +0000
Subject: [PATCH 29/62] fix: average_R_Aeff gave the resolving power the unit
 1/area

---
 marxs/analysis/gratings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 8f95735..2eb28cf 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -203,14 +203,16 @@ def average_R_Aeff(r, aeff, axis=None):
 
     Returns
     -------
-    aeff_avg : array or float
-        Summed effective area
     res_avg : array or float
         Average resolving power
+    aeff_avg : array or float
+        Summed effective area
     '''
     aeff_avg = aeff.sum(axis=axis)
+    # The unit of the weights must not become part of the resolving power
+    weights = aeff.value if isinstance(aeff, u.Quantity) else aeff
     res_avg = np.ma.average(np.ma.masked_invalid(r),
-                            weights=aeff, axis=axis)
+                            weights=weights, axis=axis)
     return res_avg, aeff_avg
 
 
-- 
2.43.0


From 853eda365ea617ab14b4024ccf5d2dbe03cb406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:41 +0000
Subject: [PATCH 30/62] fix: L2Abs failed with negative probabilities for deep
 bars and large angles

---
 marxs/missions/mitsnl/catgrating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..ddb1308 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -251,7 +251,8 @@ class L2Abs(FlatOpticalElement):
         totalarea = self.period**2 / 2 * np.sqrt(3)
         shadowfraction = shadowarea / totalarea
 
-        return {'probability': openfraction - shadowfraction}
+        # Bars can be so deep that no photon makes it through for large angles.
+        return {'probability': np.clip(openfraction - shadowfraction, 0, 1)}
 
 
 class L2Diffraction(RandomGaussianScatter):
-- 
2.43.0


From 45e7ef11fde2c08ff914cf13efc22e67f39c6356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:41 +0000
Subject: [PATCH 31/62] fix: NonParallelCATGrating ignored the groove angle for
 the change of the blaze angle

---
 marxs/missions/mitsnl/catgrating.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index ddb1308..7cb116f 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -310,7 +310,9 @@ class NonParallelCATGrating(CATGrating):
         intercoos : np.array
             intercoos coordinates for photons interacting with optical element
         '''
-        return self.blaze_center + intercoos[:, 0] * self.d_blaze_mm
+        groove = self.geometry['groove_angle']
+        dist = np.cos(groove) * intercoos[:, 0] + np.sin(groove) * intercoos[:, 1]
+        return self.blaze_center + dist * self.d_blaze_mm
 
 
 def catsupportbars(photons):
-- 
2.43.0


From 2e6d6ab29e66811d945e7d3f781813966762f435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 32/62] fix: LissajousDither failed when the roll angle changes

---
 marxs/missions/chandra/dither.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..76db55f 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -84,9 +84,9 @@ class LissajousDither(FixedPointing):
         pointing_dir = np.zeros_like(dither.value)
 
         # common case for Chandra
-        if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
+        constant_roll = np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value)
+        if constant_roll:
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
-            constant_roll = True
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From 382c8ea55f65a075381a9d2bee5d04f5020563e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 33/62] fix: LissajousDither ignored the reference_transform

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 76db55f..198047c 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -129,7 +129,7 @@ class LissajousDither(FixedPointing):
 
             photons_dir[i, :3] = np.dot(mat3d.T, photons_dir[i, :3])
 
-        return photons_dir
+        return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
-- 
2.43.0


From bfd19e8a7362326c24f8bd52f94a8748682fa19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 34/62] fix: LissajousDither.write_asol failed because pointing
 has no unit

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 198047c..a2112c7 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -151,7 +151,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From 846929a70a3716d0f70168549cfe19c730b389e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 35/62] fix: event files could not be written with Python 3
 (iterkeys)

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..a5e31ac 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -87,7 +87,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header.keys()):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
-- 
2.43.0


From e35fb8f47be55f4d11eb7a05e54e0ffb113b2992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 36/62] fix: WCS type of the y column in event files is
 DEC--TAN

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index a5e31ac..1fc3224 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -112,7 +112,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From 939fea5857136e86f27e4248fa58a28afb171f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 37/62] fix: sort_columns of Chandra event lists called the
 table

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 1fc3224..d467180 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -208,4 +208,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From 29eb4c27965dca84cc5628d45a40e8a015b30be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:19 +0000
Subject: [PATCH 38/62] fix: ACIS failed with any keyword argument besides
 aimpoint

---
 marxs/missions/chandra/det_acis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ed904c6 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
-                                    0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
+                                   0,
+                                   kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 0ac9a675089c54a6c2ad8ef5b82c09ef3a262a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 39/62] fix: ACIS did not set the header keywords of the
 instrument

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ed904c6..c985a70 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -149,8 +149,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons):
+        photons = super().__call__(photons)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From b5afe2a9a3bbbf8d567af53bbab94eb551ae2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:46 +0000
Subject: [PATCH 40/62] fix: Chandra did not set the header keywords of mission
 and telescope

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..aa76937 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
-- 
2.43.0


From 14ca8688294e36668817b769bfd4660cb8579db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:40 +0000
Subject: [PATCH 41/62] fix: polarization did not follow the dither of
 LissajousDither

---
 marxs/missions/chandra/dither.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index a2112c7..3ade3ee 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -10,6 +10,7 @@ from transforms3d.quaternions import mat2quat
 from transforms3d.axangles import axangle2mat
 
 from ...source import FixedPointing
+from ...math.utils import norm_vector, e2h
 from .fitsheaders import complete_header
 
 class LissajousDither(FixedPointing):
@@ -131,6 +132,34 @@ class LissajousDither(FixedPointing):
 
         return np.einsum('...ij,...j->...i', self.reference_transform, photons_dir)
 
+    def photons_pol(self, photonsdir, polangle, time):
+        '''Calculate a polarization vector for linearly polarized light.
+
+        This is the same as in `marxs.source.FixedPointing`, except that the
+        direction to the celestial pole follows the dither motion.
+
+        Parameters
+        ----------
+        photonsdir : np.array of shape (n, 4)
+            Direction of photons
+        polangle : np.array
+            Polarization angle measured N through E. If polangle has no
+            units, it is assumed to be specified in radian.
+        time : np.array
+            Time for each photons in sec
+        '''
+        if hasattr(polangle, "unit") and (polangle.unit is not None):
+            polangle = polangle.to(u.rad)
+        northdir = np.zeros((len(time), 4))
+        for i, p in enumerate(self.pointing(time)):
+            # last column of the transposed matrix: image of the z-axis
+            northdir[i, :3] = euler2mat(p[0], - p[1], - p[2], 'rzyx')[2, :]
+        northdir = np.einsum('...ij,...j->...i', self.reference_transform, northdir)
+        n_inskyplane = norm_vector(northdir - photonsdir *
+                                   np.einsum('ij,ij->i', northdir, photonsdir)[:, None])
+        e_inskyplane = e2h(np.cross(photonsdir[:, :3], n_inskyplane[:, :3]), 0)
+        return np.cos(polangle)[:, None] * n_inskyplane + np.sin(polangle)[:, None] * e_inskyplane
+
     def write_asol(self, photons, asolfile, timestep=0.256):
         '''Write an aspect solution (asol) file
 
-- 
2.43.0


From 0b7ae3aaa7cf1c28f895bafefbeb9e30cf75592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 42/62] fix: triangulations of different size were combined
 with wrong indices

---
 marxs/visualization/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..16de650 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -290,8 +290,7 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_offset = np.cumsum([0] + [a.shape[0] for a in list_xyz])[:-1]
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 2b435466757abd460d917d4241c605ea372041ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 43/62] fix: x3d.plot_rays colored rays by the values along the
 first ray

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..5a29c27 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -423,7 +423,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From e91b7502b68dd02d775a9e8b2ccff9dcde428e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 44/62] fix: x3d surfaces, boxes and triangles did not return
 the scene

---
 marxs/visualization/x3d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 5a29c27..87a807d 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -246,6 +246,7 @@ def indexed_triangle_set(xyz, index, display, *, scene):
                      geometry=x3d.IndexedTriangleSet(coord=x3d.Coordinate(point=_format_points(xyz)),
                                                      index=[int(i) for i in index.reshape(-1, 3).flatten()],
                                                      solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -279,6 +280,7 @@ def surface(obj, display, *, scene):
                                         x3d.Coordinate(point=_format_points(xyz.reshape((-1, 3)))),
                                         coordIndex=list(coordIndex),
                                         solid=False, colorPerVertex=False)))
+    return scene
 
 
 @empty_scene
@@ -345,6 +347,8 @@ def box(obj, display, *, scene):
         ),
     )
     scene.children.append(shape)
+    return scene
+
 
 @empty_scene
 @format_doc(doc_plot)
-- 
2.43.0


From 9057803fb4c5ec63d5c487a208bccd7ecf471ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 45/62] fix: threejsjson could not plot containers

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..57517a7 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From 6bfcb55f856b788fa2a990d589f196829e47eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 46/62] fix: threejsjson.write failed when photons were given

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 57517a7..af788c3 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = dict(photons.meta)
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
-- 
2.43.0


From 44625c40a505296a473ab7cfaa71244a00e90bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:07 +0000
Subject: [PATCH 47/62] fix: Lynx: pass the keywords grating and detector
 arrays take and chirp the gratings that are used

---
 marxs/missions/lynx/lynx.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..4c6e60e 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, NonParallelCATGrating,
+                                              catsupportbars, l1_order_selector)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -65,7 +66,7 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
+                       'guess_distance': 1e4,
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,7 +134,7 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **conf['det_kwargs'],
                                               guess_distance=25.)
 
 
@@ -197,7 +198,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From 3304a52b870e83a665e559fe3a2d50d9f23915e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:31 +0000
Subject: [PATCH 48/62] fix: Arcus boom: rods are tubes along their x-axis

---
 marxs/missions/arcus/boom.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..897a4a3 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -6,6 +6,7 @@ from transforms3d.affines import compose
 from marxs.optics import OpticalElement
 from marxs.simulator import Parallel
 from marxs.math.geometry import Cylinder
+from marxs.math.utils import xyz2zxy
 
 
 class Rod(OpticalElement):
@@ -17,6 +18,13 @@ class Rod(OpticalElement):
 
     default_geometry = Cylinder
 
+    def __call__(self, photons):
+        # The axis of a Cylinder is its z-axis, but the rod runs along x.
+        tube = Cylinder({'pos4d': self.pos4d @ xyz2zxy.T})
+        intersect_out = tube.intersect(photons['dir'].data,
+                                       photons['pos'].data)
+        return self.process_photons(photons, *intersect_out)
+
     def process_photons(self, photons, intersect, interpos, intercoos):
         if self.outcol not in photons.colnames:
             photons[self.outcol] = False
-- 
2.43.0


From 57bedce3f125abdc1fbb5b71c046398c4da7708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:43 +0000
Subject: [PATCH 49/62] fix: Arcus boom: diagonals fit the dimensions of the
 boom

---
 marxs/missions/arcus/boom.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index 897a4a3..f193f10 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -60,7 +60,9 @@ class ThreeSidedBoom(Parallel):
             if hasattr(self, k):
                 setattr(self, k, boom_dims[k])
             else:
-                raise ValueError('{} has not attribute {}'.format(self.name, k))
+                raise ValueError('{} has not attribute {}'.format(self.__class__.__name__, k))
+        if 'l_diag' not in boom_dims:
+            self.l_diag = np.sqrt(self.l_longeron**2 + self.l_batten**2)
         kwargs['elem_pos'] = self.pos_spec()
         kwargs['elem_class'] = Rod
         kwargs['elem_args'] = {}
@@ -89,11 +91,12 @@ class ThreeSidedBoom(Parallel):
         # diagonal1
         zoom = [self.l_diag / 2., self.d_diag / 2., self.d_diag / 2.]
         trans[0] = self.l_longeron / 2.
-        rot = euler2mat(np.deg2rad(90. - 34.03), -np.pi / 6, 0, 'szxz')
+        ang = np.arctan2(self.l_batten, self.l_longeron)
+        rot = euler2mat(ang, -np.pi / 6, 0, 'szxz')
         pos4d.append(compose(trans, rot, zoom))
 
         # diagonal2
-        rot = euler2mat(np.deg2rad(90. + 34.03), -np.pi / 6, 0, 'szxz')
+        rot = euler2mat(-ang, -np.pi / 6, 0, 'szxz')
         pos4d.append(compose(trans, rot, zoom))
         return pos4d
 
@@ -147,7 +150,7 @@ class FourSidedBoom(ThreeSidedBoom):
         # diagonal1
         zoom = [self.l_diag / 2., self.d_diag / 2., self.d_diag / 2.]
         trans = [self.l_longeron / 2., self.l_batten / 2, 0.]
-        ang = np.arcsin(self.l_batten / self.l_diag)
+        ang = np.arctan2(self.l_batten, self.l_longeron)
         rot = euler2mat(ang, 0, 0, 'syxz')
         pos4d.append(compose(trans, rot, zoom))
 
-- 
2.43.0


From c9070a4a13c41b04827d3448e05540a67eb786ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:43 +0000
Subject: [PATCH 50/62] fix: TagVersion: write ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..4d8c121 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From b459992458da98685601f92ad91b813c8b323258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:43 +0000
Subject: [PATCH 51/62] fix: add_output_cols: keep existing columns and leave
 the dictionaries given unchanged

---
 marxs/base/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 4d8c121..62f714b 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -271,9 +271,11 @@ class SimulationSequenceElement(MarxsElement):
             be used to set the column names, see description above.
         '''
         for n in self.output_columns + colnames:
-            if (n is not None) and (n not in photons.colnames):
-                if not isinstance(n, dict):
-                    n = {'name': n, 'value': np.nan}
+            if n is None:
+                continue
+            # Make a copy, because the dictionary might be used again
+            n = dict(n) if isinstance(n, dict) else {'name': n, 'value': np.nan}
+            if n['name'] not in photons.colnames:
                 val = n.pop('value', None)
                 newcol = Column(length=len(photons), **n)
                 if val is not None:
-- 
2.43.0


From 00acfda68c86ca010d81ba9d5cfb11eea804d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:19 +0000
Subject: [PATCH 52/62] fix: Lynx: look up the efficiency of a shell by its
 serial number

---
 marxs/missions/lynx/mirror.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..1ce2aa2 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -61,8 +61,8 @@ class MetaShellEfficiency(SimulationSequenceElement):
         # factor 100 is to transform cm^2 to mm^2
         ageom = np.pi * (data['r_outer']**2 - data['r_inner']**2)
         self.relative_eff = aeff * 100 / ageom[:, None]
-        self.shells = [(i, interp1d(eff['energy'], self.relative_eff[i - 1, :]))
-                       for i in data['Metashell Serial Number']]
+        self.shells = [(c, interp1d(eff['energy'], self.relative_eff[i, :]))
+                       for i, c in enumerate(data['Metashell Serial Number'])]
 
     def __call__(self, photons):
         for i, func in self.shells:
-- 
2.43.0


From 19995f772d9fe6876cdadfe357878f8a3e286f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:51 +0000
Subject: [PATCH 53/62] fix: Lynx: number the shells of the aperture with their
 serial numbers

---
 marxs/missions/lynx/mirror.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 1ce2aa2..6050de5 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -21,6 +21,9 @@ class MetaShellAperture(optics.MultiAperture):
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
         super().__init__(**kwargs)
+        # MultiAperture numbers its elements, but we want the serial numbers.
+        for e, shell in zip(self.elements, metashellgeometry):
+            e.id_num = shell['Metashell Serial Number']
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
                 'shape': 'triangulation',
-- 
2.43.0


From 8f36fb69781e5df9a2ff873984094ba8df4b4904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:21 +0000
Subject: [PATCH 54/62] fix: OrderColor with a negative largest order

---
 marxs/analysis/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/plots.py b/marxs/analysis/plots.py
index ba70021..701cbe5 100644
--- a/marxs/analysis/plots.py
+++ b/marxs/analysis/plots.py
@@ -16,7 +16,7 @@ class OrderColor():
     def __init__(self, colormap='nipy_spectral', max_order=15):
         import matplotlib.pyplot as plt
         cmap = plt.get_cmap(colormap)
-        self.color = cmap(np.linspace(0, 1, abs(max_order + 1)))
+        self.color = cmap(np.linspace(0, 1, abs(max_order) + 1))
 
     def __call__(self, order):
         kwargs = {}
-- 
2.43.0


From 2f0f5cace5934de03de0cc9ff6d1660475dcf76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:33 +0000
Subject: [PATCH 55/62] fix: NumericalChirpFinder used photons of 1 keV for all
 energies

---
 marxs/design/bendgratings.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index d30ca19..94b2593 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -126,6 +126,7 @@ class NumericalChirpFinder():
         self.photon['pos'] = self.pos
         self.photon['dir'] = self.dir
         self.photon['probability'] = 1
+        self.photon['energy'][:] = self.energy
 
     def run_photon(self):
         self.reset_photon()
-- 
2.43.0


From 45e33a4a18260954bdfe8495c9c5a4d89b7c6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:18 +0000
Subject: [PATCH 56/62] fix: BendNumericalChirpFinder used an attribute that
 tubes do not have

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 94b2593..8783214 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -156,7 +156,7 @@ class NumericalChirpFinder():
 class BendNumericalChirpFinder(NumericalChirpFinder):
     def posongrat(self):
         trans, rot, zoom, shear = decompose44(self.grat.geometry.pos4d)
-        p_lim = self.grat.geometry.phi_limits
+        p_lim = self.grat.geometry.coos_limits[0]
         p_center = np.mean(p_lim)
         # Not accounting for 2 pi wrap and crazy stuff
         p_half = (p_lim[1] - p_lim[0]) / 2
-- 
2.43.0


From 65cd57e1482e3cd55048d6b400243a5b3b58955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:20 +0000
Subject: [PATCH 57/62] fix: chirp_gratings failed for other than three
 positions

---
 marxs/design/bendgratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/bendgratings.py b/marxs/design/bendgratings.py
index 8783214..a307804 100644
--- a/marxs/design/bendgratings.py
+++ b/marxs/design/bendgratings.py
@@ -176,7 +176,7 @@ def chirp_gratings(gratings, optimizer, d,
     '''
     for grat in gratings:
         corr = optimizer(grat, uarray, varray)
-        corr = np.tile(corr[:, 0], (3, 1)).T
+        corr = np.tile(corr[:, 0], (len(uarray), 1)).T
         ly = np.linalg.norm(grat.geometry['v_y'])
         lz = np.linalg.norm(grat.geometry['v_z'])
         grat.fitted_d_corr = corr
-- 
2.43.0


From e63f9f575e6479b9e70f191bb9cc936a7a763ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 58/62] fix: aeffRfromraygrid: accept a list of orders, as
 documented

---
 marxs/missions/arcus/analyze_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..ee45c87 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -133,6 +133,7 @@ def aeffRfromraygrid(inpath, conf,
     out : `astropy.table.QTable`
         Table with instrument performance metrics
     '''
+    orders = np.asarray(orders)
     rayfiles = glob.glob(os.path.join(inpath, 'wave*.fits'))
     rayfiles.sort()
     r0 = Table.read(rayfiles[0])
-- 
2.43.0


From 56ee94bc65882f733c69e9fa49de266548ba10a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 59/62] fix: mkarf: channels are those of the configuration
 given

---
 marxs/missions/arcus/arfrmf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/arcus/arfrmf.py b/marxs/missions/arcus/arfrmf.py
index de04cb4..8d67351 100644
--- a/marxs/missions/arcus/arfrmf.py
+++ b/marxs/missions/arcus/arfrmf.py
@@ -203,7 +203,7 @@ def mkarf(channel_edges, order,
     specresp_sim = mirr_grat(en_mid, order)
     all_onccd = np.zeros(len(specresp_filtqe))
     for chan in channels:
-        if chan not in defaultconf['pos_opt_ax'].keys():
+        if chan not in conf['pos_opt_ax'].keys():
             raise ValueError(f'channel {chan} not defined in Arcus')
         specresp_onccd = onccd(en_mid, order, chan)
         all_onccd += specresp_onccd
-- 
2.43.0


From 5d393458b2f66679801531d28544900966ed213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:54 +0000
Subject: [PATCH 60/62] fix: Arcus: the circular detector follows the Rowland
 torus of the configuration given

---
 marxs/missions/arcus/arcus.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/arcus/arcus.py b/marxs/missions/arcus/arcus.py
index d903aa0..ffd87eb 100644
--- a/marxs/missions/arcus/arcus.py
+++ b/marxs/missions/arcus/arcus.py
@@ -434,10 +434,10 @@ class PerfectArcus(Sequence):
         # rotate such that phi=0 is at the bottom
         rot = transforms3d.axangles.axangle2mat(np.array([0, 1, 0]), np.pi)
         circdet = CircularDetector(orientation=xyz2zxy[:3, :3] @ rot,
-                                   zoom=[defaultconf['rowland_detector'].r,
-                                         defaultconf['rowland_detector'].r,
+                                   zoom=[conf['rowland_detector'].r,
+                                         conf['rowland_detector'].r,
                                          20],
-                                   position=[0, 0, np.sqrt(defaultconf['rowland_detector'].r**2 - conf['d']**2)],
+                                   position=[0, 0, np.sqrt(conf['rowland_detector'].r**2 - conf['d']**2)],
                                    )
         circdet.display['opacity'] = 0.1
         circdet.detpix_name = ['circpix_x', 'circpix_y']
-- 
2.43.0


From 0a5d5273590c668c36f8e0aa56c7ef7c35430f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:47 +0000
Subject: [PATCH 61/62] fix: CALDB_interp failed for tables with more than one
 extraction width

---
 marxs/reduction/lsfparm.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..475afc8 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,22 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class interp2d_grid:
+    '''2D interpolation on a grid, same signature as `scipy.interpolate.interp2d`
+
+    For use with LSFPARM files that have more than one WIDTH
+    (`scipy.interpolate.interp2d` was removed from scipy). There are usually
+    only few extraction widths, so the interpolation between them is linear.
+
+    '''
+    def __init__(self, x, y, z, **kwargs):
+        self.x = x
+        self.interp_y = interpolate.interp1d(y, z, **kwargs)
+
+    def __call__(self, x, y):
+        return interpolate.interp1d(self.x, self.interp_y(y))(x)
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +264,12 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d`.
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = interp2d_grid
     else:
         interp = interp1d_2dsignature
 
-- 
2.43.0


From 1756cfe8536f97a3a69bb72b7f2862c812ba94f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:57 +0000
Subject: [PATCH 62/62] fix: Lynx, AXIS: the circular detector follows the
 Rowland torus of the configuration given

---
 marxs/missions/AXIS/AXIS.py | 17 +++++++++++------
 marxs/missions/lynx/lynx.py | 17 +++++++++++------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/marxs/missions/AXIS/AXIS.py b/marxs/missions/AXIS/AXIS.py
index dfe05b5..e5936b3 100644
--- a/marxs/missions/AXIS/AXIS.py
+++ b/marxs/missions/AXIS/AXIS.py
@@ -130,13 +130,18 @@ imaging.loc_coos_name = ['imaging_x', 'imaging_y']
 imaging.detpix_name = ['imaging_x', 'imaging_y']
 
 
-# Place an additional detector on the Rowland circle.
-detcirc = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'],
+def circular_detector(conf):
+    '''Additional detector on the Rowland circle'''
+    det = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'],
                                                                  width=50,
                                                                  rotation=np.pi,
                                                                  kwargs={'phi_lim':[-np.pi/2, np.pi/2]}))
-detcirc.loc_coos_name = ['detcirc_phi', 'detcirc_y']
-detcirc.detpix_name = ['detcircpix_x', 'detcircpix_y']
+    det.loc_coos_name = ['detcirc_phi', 'detcirc_y']
+    det.detpix_name = ['detcircpix_x', 'detcircpix_y']
+    return det
+
+
+detcirc = circular_detector(conf)
 
 flatdet = FlatDetector(zoom=[1, 1e5, 1e5])
 flatdet.loc_coos_name = ['detinf_x', 'detinf_y']
@@ -182,7 +187,7 @@ class PerfectAXIS(simulator.Sequence):
                 imaging,
                 analysis.ProjectOntoPlane(),
                 Propagator(distance=-1000),
-                detcirc,
+                circular_detector(conf),
                 proj2,
                 Propagator(distance=-1000),
                 flatdet]
@@ -204,7 +209,7 @@ class PerfectAXIS(simulator.Sequence):
                          **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
             gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
-            opt = NumericalChirpFinder(detcirc,
+            opt = NumericalChirpFinder(circular_detector(conf),
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
                                        d=conf['gas_kwargs']['elem_args']['d'])
diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index 4c6e60e..1030443 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -138,13 +138,18 @@ class RowlandDetArray(design.rowland.RectangularGrid):
                                               guess_distance=25.)
 
 
-# Place an additional detector on the Rowland circle.
-detcirc = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'],
+def circular_detector(conf):
+    '''Additional detector on the Rowland circle'''
+    det = optics.CircularDetector(geometry=Cylinder.from_rowland(conf['rowland'],
                                                                  width=50,
                                                                  rotation=np.pi,
                                                                  kwargs={'phi_lim':[-np.pi/2, np.pi/2]}))
-detcirc.loc_coos_name = ['detcirc_phi', 'detcirc_y']
-detcirc.detpix_name = ['detcircpix_x', 'detcircpix_y']
+    det.loc_coos_name = ['detcirc_phi', 'detcirc_y']
+    det.detpix_name = ['detcircpix_x', 'detcircpix_y']
+    return det
+
+
+detcirc = circular_detector(conf)
 
 flatdet = FlatDetector(zoom=[1, 1e5, 1e5])
 flatdet.loc_coos_name = ['detinf_x', 'detinf_y']
@@ -176,7 +181,7 @@ class PerfectLynx(simulator.Sequence):
         return [RowlandDetArray(conf),
                 analysis.ProjectOntoPlane(),
                 Propagator(distance=-1000),
-                detcirc,
+                circular_detector(conf),
                 proj2,
                 Propagator(distance=-1000),
                 flatdet,
@@ -199,7 +204,7 @@ class PerfectLynx(simulator.Sequence):
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
             gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
-            opt = NumericalChirpFinder(detcirc,
+            opt = NumericalChirpFinder(circular_detector(conf),
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
                                        d=conf['gas_kwargs']['elem_args']['d'])
-- 
2.43.0

