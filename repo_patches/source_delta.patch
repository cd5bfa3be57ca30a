From 89008d680178386a319987c1a82223032c88c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 1/4] fix: keep the patch layout of each tract apart from the
 others'

All tracts of a sky map shared one tract builder, which only remembers the
patch layout of the tract it was last set up for: generating a tract of
another size changed the patches, indices and look-ups of earlier ones.
---
 python/lsst/skymap/tractInfo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractInfo.py b/python/lsst/skymap/tractInfo.py
index ddde703..a06b0a3 100755
--- a/python/lsst/skymap/tractInfo.py
+++ b/python/lsst/skymap/tractInfo.py
@@ -22,6 +22,8 @@
 
 __all__ = ["TractInfo"]
 
+import copy
+
 import numpy as np
 from deprecated.sphinx import deprecated
 
@@ -89,7 +91,9 @@ class TractInfo:
         self._ctrCoord = ctrCoord
         self._vertexCoordList = tuple(vertexCoordList)
         self._tractOverlap = tractOverlap
-        self._tractBuilder = tractBuilder
+        # The builder remembers the patch layout of the tract it was last set
+        # up for, so it cannot be shared between tracts.
+        self._tractBuilder = copy.copy(tractBuilder)
         self._innerBoxCorners = innerBoxCorners
 
         minBBox = self._minimumBoundingBox(wcs)
-- 
2.43.0


From c6f96d09d42f307fe2ab6d234606bb6f4cbdb488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 2/4] fix: unpack the band by its configured number, not its
 place in the mapping

---
 python/lsst/skymap/packers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 3b17326..32e2518 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -177,7 +177,7 @@ class SkyMapDimensionPacker(DimensionPacker):
         self._n_bands = n_bands
         self._n_tracts = n_tracts
         self._n_patches = n_patches
-        self._bands_list = None
+        self._bands_by_index = None
 
     @classmethod
     def make_config_field(
@@ -269,8 +269,8 @@ class SkyMapDimensionPacker(DimensionPacker):
         d = {"skymap": self.fixed["skymap"]}
         if self._n_bands:
             index, packedId = divmod(packedId, (self._n_tracts * self._n_patches))
-            if self._bands_list is None:
-                self._bands_list = list(self._bands)
-            d["band"] = self._bands_list[index]
+            if self._bands_by_index is None:
+                self._bands_by_index = {i: band for band, i in self._bands.items()}
+            d["band"] = self._bands_by_index[index]
         d["tract"], d["patch"] = divmod(packedId, self._n_patches)
         return DataCoordinate.standardize(d, dimensions=self.dimensions)
-- 
2.43.0


From 3876020c84c0821832dca06314d8274efd29c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 3/4] fix: refuse to pack negative tract, patch and band
 numbers

---
 python/lsst/skymap/packers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/lsst/skymap/packers.py b/python/lsst/skymap/packers.py
index 32e2518..63aa79f 100755
--- a/python/lsst/skymap/packers.py
+++ b/python/lsst/skymap/packers.py
@@ -245,9 +245,9 @@ class SkyMapDimensionPacker(DimensionPacker):
 
     def _pack(self, dataId: DataCoordinate) -> int:
         # Docstring inherited from DataIdPacker.pack
-        if dataId["patch"] >= self._n_patches:
+        if not 0 <= dataId["patch"] < self._n_patches:
             raise ValueError(f"Patch ID {dataId['patch']} is out of bounds; expected <{self._n_patches}.")
-        if dataId["tract"] >= self._n_tracts:
+        if not 0 <= dataId["tract"] < self._n_tracts:
             raise ValueError(f"Tract ID {dataId['tract']} is out of bounds; expected <{self._n_tracts}.")
         packed = dataId["patch"] + self._n_patches * dataId["tract"]
         if self._n_bands:
@@ -256,7 +256,7 @@ class SkyMapDimensionPacker(DimensionPacker):
                     f"Band {dataId['band']!r} is not supported by SkyMapDimensionPacker "
                     f"configuration; expected one of {list(self._bands)}."
                 )
-            if band_index >= self._n_bands:
+            if not 0 <= band_index < self._n_bands:
                 raise ValueError(
                     f"Band index {band_index} for {dataId['band']!r} is out of bounds; "
                     f"expected <{self._n_bands}."
-- 
2.43.0


From 69f597df8cd91e4157ee41f1c743be32a0ea0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:50 +0000
Subject: [PATCH 4/4] fix: hand out a copy of the patch dimensions

getPatchInnerDimensions returned the tract builder's own, mutable extent,
which every tract of the sky map shares; changing it in place changed the
layout of all of them.
---
 python/lsst/skymap/tractBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/skymap/tractBuilder.py b/python/lsst/skymap/tractBuilder.py
index 1757a35..7d70ea9 100644
--- a/python/lsst/skymap/tractBuilder.py
+++ b/python/lsst/skymap/tractBuilder.py
@@ -124,7 +124,7 @@ class BaseTractBuilder(metaclass=abc.ABCMeta):
     def getPatchInnerDimensions(self):
         """Get dimensions of inner region of the patches (all are the same)
         """
-        return self._patchInnerDimensions
+        return geom.Extent2I(self._patchInnerDimensions)
 
     def getSequentialPatchIndex(self, patchInfo):
         """Return a single integer that uniquely identifies
-- 
2.43.0

