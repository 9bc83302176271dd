From 57bff120a2ab382c188c6fe94b76f0c142451ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 01/54] fix: rectangles lying wholly before the image label no
 pixels

A rectangle ending at a negative coordinate produced a negative slice stop,
which wraps around and labelled pixels on the far side of the image.
---
 skbeam/core/roi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..ec252bf 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -83,6 +83,9 @@ def rectangles(coords, shape):
     for i, (col_coor, row_coor, col_val, row_val) in enumerate(coords):
         left, right = np.max([col_coor, 0]), np.min([col_coor + col_val, shape[0]])
         top, bottom = np.max([row_coor, 0]), np.min([row_coor + row_val, shape[1]])
+        # a rectangle that ends before the image starts covers no pixel: a
+        # negative stop would count from the far end of the image
+        right, bottom = np.max([right, 0]), np.max([bottom, 0])
 
         slc1 = slice(left, right)
         slc2 = slice(top, bottom)
-- 
2.43.0


From 3acf0cc73928da7e02cfaf5fb40b709280c46a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 02/54] fix: ring_edges accepts lists of widths and spacings

The length check was inverted: the documented example
ring_edges(1, width=(5, 4, 3), spacing=(1, 2)) raised ValueError.
---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index ec252bf..a812b0f 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -188,7 +188,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From 2e0f0e259f47f57c2edc28eeb4e80edc54e7f2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:20 +0000
Subject: [PATCH 03/54] fix: vertical bars honour the given pixel coordinates

bar(..., horizontal=False, values=...) ignored values.
---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index a812b0f..f03aca3 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -610,9 +610,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From cac4758b6b4cce4e3a0c6022ffd532f79013f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:14 +0000
Subject: [PATCH 04/54] fix: segmented_rings never mixes segments of different
 rings

Pixels at an angle outside of all segments were given the label of a
segment of the neighbouring ring; N equal segments with an angular offset
now cover the whole circle.
---
 skbeam/core/roi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index f03aca3..0fb5e9e 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -282,6 +282,9 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         # N equal segments requires N+1 bin edges spanning 0 to 2pi.
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
         segments += offset_angle
+        # the segments cover the full circle starting at offset_angle
+        agrid[agrid < segments[0]] += 2 * np.pi
+        agrid[agrid >= segments[-1]] -= 2 * np.pi
 
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
@@ -295,6 +298,8 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
     len_segments = len(segments)
     for i in range(len(edges) // 2):
         indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        # angles outside of all segments belong to no ROI
+        indices &= (ind_grid > 0) & (ind_grid < len_segments)
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From cd8b3621baf58e716213aa16294638b7d43f7cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:52 +0000
Subject: [PATCH 05/54] fix: mean_intensity works on label arrays without
 background

With every pixel labelled, index.remove(0) raised ValueError.
---
 skbeam/core/roi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 0fb5e9e..d5028db 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -403,8 +403,7 @@ def mean_intensity(images, labeled_array, index=None):
         )
     # handle various input for `index`
     if index is None:
-        index = list(np.unique(labeled_array))
-        index.remove(0)
+        index = [n for n in np.unique(labeled_array) if n != 0]
     try:
         len(index)
     except TypeError:
-- 
2.43.0


From 8c41ecaf4d453dc73c246ff8ccbc8b9a5ea2c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:23 +0000
Subject: [PATCH 06/54] fix: default bins of bin_grid cover the largest radius

np.arange leaves out its end point, so the outermost pixels fell outside of
the last bin (and an image of constant radius had no bin at all).
---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..748bd73 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1244,7 +1244,7 @@ def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None
         mask = np.ones(image.shape, dtype=int).astype(bool)
     if bins is None:
         res = np.hypot(*pixel_sizes)
-        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res * 0.5, res)
+        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res, res)
 
     int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
 
-- 
2.43.0


From 730698f51bb0e7fead1c23e5d7ea197737a7c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 07/54] fix: threads of the 3D gridder clear their own arrays
 with a private index

---
 src/ctrans.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..8a7263c 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -452,10 +452,11 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
-- 
2.43.0


From 024102d3e7974c905e6721bb1231d92a18b19cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 08/54] fix: 3D gridder built without OpenMP allocates data for
 its one thread

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 8a7263c..f997fe3 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
-- 
2.43.0


From 1b87373c8adab020e14ce50bdb8603da76034412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 09/54] fix: parse the ignore_nan flag of the 3D gridder as the
 int it is stored in

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index f997fe3..51c817b 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -319,7 +319,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
-- 
2.43.0


From 0723bb04de11a542bc6089490a7a94fa881bfa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 10/54] fix: 3D gridder rejects data that is not
 two-dimensional

---
 src/ctrans.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 51c817b..668fe76 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -328,7 +328,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
     return NULL;
   }
 
-  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 0, 0, NPY_ARRAY_IN_ARRAY);
+  gridI = (PyArrayObject*)PyArray_FROMANY(_I, NPY_DOUBLE, 2, 2, NPY_ARRAY_IN_ARRAY);
   if(!gridI){
     goto error;
   }
-- 
2.43.0


From b900eb753e3b7020e8434e1d0427fea88d292988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 11/54] fix: standard error of equal values is zero, not the
 root of a rounding error

---
 src/ctrans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 668fe76..a2f5868 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -535,6 +535,9 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
+      if(var < 0){
+        var = 0.0; // rounding errors when all values are (nearly) equal
+      }
       stderror[j] = pow(var, 0.5) / pow(nout[j], 0.5);
     }
   }
-- 
2.43.0


From 756bcbc57aa26bdf6f6fe2e354ab7f48039cc23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 12/54] fix: failing allocations in the 3D gridder neither leak
 nor split the team

---
 src/ctrans.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index a2f5868..dcbc2a9 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -449,7 +449,19 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     _dout = (double *)malloc(sizeof(double) * grid_size);
     _nout = (unsigned long *)malloc(sizeof(unsigned long) * grid_size);
 
-    if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
+    threadData[thread_num].dout = _dout;
+    threadData[thread_num].d2out = _d2out;
+    threadData[thread_num].nout = _nout;
+
+    if((_d2out == NULL) || (_dout == NULL) || (_nout == NULL)){
+#pragma omp atomic write
+      retval = 1;
+    }
+
+    // Every thread has to take the same branch, as the loop is shared
+#pragma omp barrier
+
+    if(!retval){
 
       // Clear the arrays ....
       unsigned long k;
@@ -496,12 +508,6 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
           }
         }
       }
-
-      threadData[thread_num].dout = _dout;
-      threadData[thread_num].d2out = _d2out;
-      threadData[thread_num].nout = _nout;
-    } else {
-      retval = 1;
     }
 
   } // pragma parallel
-- 
2.43.0


From c6c6e7dac01d6e34c06d09d55a9787317350c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:49 +0000
Subject: [PATCH 13/54] fix: default bounds of grid3d always contain the
 largest q values

---
 skbeam/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 748bd73..4a504b9 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -912,7 +912,9 @@ def grid3d(
 
     # pad the upper edge by just enough to ensure that all of the
     # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
+    # (the pad must survive the rounding of qmax - qmin, also when qmin is
+    # much larger in magnitude than qmax)
+    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
 
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
-- 
2.43.0


From c4b35ea72a8754057f569e568fd523c1bf0c5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:49 +0000
Subject: [PATCH 14/54] fix: grid3d treats integer binary masks as masks, not
 as indices

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 4a504b9..939ba4c 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -929,7 +929,7 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From d19a82344a513f30cc9560a2300a4a8feb14c399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:49 +0000
Subject: [PATCH 15/54] fix: grid3d accepts integer q values

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 939ba4c..52bc6bf 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -893,7 +893,7 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
-- 
2.43.0


From 10aa0fb745f1021c230401c246c7678ecc3d0f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:48 +0000
Subject: [PATCH 16/54] fix: pad of the default grid3d bounds accounts for
 given lower bounds

---
 skbeam/core/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 52bc6bf..16a341f 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -910,18 +910,21 @@ def grid3d(
     qmax = np.max(q, axis=0)
     dqn = [_defaults["nx"], _defaults["ny"], _defaults["nz"]]
 
-    # pad the upper edge by just enough to ensure that all of the
-    # points are in-bounds with the binning rules: lo <= val < hi
-    # (the pad must survive the rounding of qmax - qmin, also when qmin is
-    # much larger in magnitude than qmax)
-    qmax += 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
-
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
         for j, in_val in enumerate(input_vals):
             if in_val is not None:
                 target[j] = in_val
 
+    # pad the default upper edges by just enough to ensure that all of the
+    # points are in-bounds with the binning rules: lo <= val < hi
+    # (the pad must survive the rounding of qmax - qmin, also when qmin is
+    # much larger in magnitude than qmax)
+    pad = 4 * np.spacing(np.maximum(np.abs(qmin), np.abs(qmax)))
+    for j, in_val in enumerate((xmax, ymax, zmax)):
+        if in_val is None:
+            qmax[j] += pad[j]
+
     # format bounds
     bounds = np.array([qmin, qmax, dqn]).T
 
-- 
2.43.0


From f43cea9d3f6872a6c3a35e24ac4729d61c2ccf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 17/54] fix: failing allocation in ccdToQ raises MemoryError

---
 src/ctrans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index dcbc2a9..379c804 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -130,6 +130,7 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
   // Now create the arrays for delta-gamma pairs
   delgam = (double*)malloc(nimages * ccd.size * sizeof(double) * 2);
   if(!delgam){
+    PyErr_NoMemory();
     goto cleanup;
   }
 
-- 
2.43.0


From f1083c3e8c383dba7e67805bec37c27784a43e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:06 +0000
Subject: [PATCH 18/54] fix: ccdToQ rejects UB matrices and angles of the wrong
 shape

---
 src/ctrans.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ctrans.c b/src/ctrans.c
index 379c804..3668f75 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -112,6 +112,16 @@ static PyObject* ccdToQ(PyObject *self, PyObject *args, PyObject *kwargs){
     goto cleanup;
   }
 
+  if(PyArray_DIM(angles, 1) != 6){
+    PyErr_SetString(PyExc_ValueError, "Dimension 1 of angles must be 6");
+    goto cleanup;
+  }
+
+  if(PyArray_DIM(ubinv, 0) != 3 || PyArray_DIM(ubinv, 1) != 3){
+    PyErr_SetString(PyExc_ValueError, "UBinv must be a 3x3 matrix");
+    goto cleanup;
+  }
+
   ubinvp = (double *)PyArray_DATA(ubinv);
 
   nimages = PyArray_DIM(angles, 0);
-- 
2.43.0


From a79e8bac6bf830de1644a161ff018e5d4f7caeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 19/54] fix: a margin of zero masks no pixels

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..9b78439 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[edge_size : img_shape[0] - edge_size, edge_size : img_shape[1] - edge_size] = 0.0
     return ~mask
 
 
-- 
2.43.0


From 29a3794e2a41286bcbb70bc77a2f8559eea7b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 20/54] fix: binned_outlier judges pixels on a bin edge by the
 bin that holds them

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 9b78439..8d66446 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -170,7 +170,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     msk_img = img[working_mask]
     msk_r = r[working_mask]
 
-    int_r = np.digitize(r, bins[:-1], True) - 1
+    int_r = np.digitize(r, bins[:-1]) - 1
     # integration
     mean = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic="mean")[0]
     std = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic=np.std)[0]
-- 
2.43.0


From f8c5124b08ed9e30628ec4b688c5681c56e3627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:15 +0000
Subject: [PATCH 21/54] fix: logical_sub may write its result over its first
 operand

---
 skbeam/core/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/arithmetic.py b/skbeam/core/arithmetic.py
index f9144a8..089af0e 100644
--- a/skbeam/core/arithmetic.py
+++ b/skbeam/core/arithmetic.py
@@ -164,4 +164,4 @@ def logical_sub(x1, x2, out=None):
            [False, False, False, False, False],
            [ True, False,  True, False,  True]], dtype=bool)
     """
-    return logical_and(x1, logical_not(logical_and(x1, x2, out), out), out)
+    return logical_and(x1, logical_not(x2), out)
-- 
2.43.0


From 8f9d91b8233ec149edcf9dcfb27b0853c13807ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:26 +0000
Subject: [PATCH 22/54] fix: binned statistics keep points just below the last
 edge in the last bin

---
 skbeam/core/accumulators/binned_statistic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..8a35314 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -169,7 +169,10 @@ class BinnedStatisticDD(object):
             # Rounding precision
             decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(
+                (sample[:, i] >= self.edges[i][-1])
+                & (np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))
+            )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
 
-- 
2.43.0


From c02d71e8c8a0dd467c5903be9e9a8d8bf7424f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:26 +0000
Subject: [PATCH 23/54] fix: masks of binned statistics leave the sample alone
 and work for integers and lists

---
 skbeam/core/accumulators/binned_statistic.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 8a35314..95ed0ea 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -153,12 +153,7 @@ class BinnedStatisticDD(object):
         # Compute the bin number each sample falls into.
         Ncount = {}
         for i in np.arange(self.D):
-            # Apply mask in a non-ideal way by setting value outside range.
-            # Would be better to do this using bincount "weights", perhaps.
-            thissample = sample[:, i]
-            if mask is not None:
-                thissample[mask == 0] = self.edges[i][0] - 0.01 * (1 + np.fabs(self.edges[i][0]))
-            Ncount[i] = np.digitize(thissample, self.edges[i])
+            Ncount[i] = np.digitize(sample[:, i], self.edges[i])
 
         # Using digitize, values that fall on an edge are put in the
         # right bin.  For the rightmost bin, we want values equal to
@@ -175,6 +170,9 @@ class BinnedStatisticDD(object):
             )[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
+            # Ignore masked points by putting them in the outlier bin.
+            if mask is not None:
+                Ncount[i][np.asarray(mask) == 0] = 0
 
         # Compute the sample indices in the flattened statistic matrix.
         self.ni = self.nbin.argsort()
-- 
2.43.0


From b2529c62f8421abe25fd9b1448b4edba661e8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:26 +0000
Subject: [PATCH 24/54] fix: binmap of binned statistics with different numbers
 of bins per dimension

---
 skbeam/core/accumulators/binned_statistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 95ed0ea..7ed1c79 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -205,8 +205,8 @@ class BinnedStatisticDD(object):
             ind = self.D - i - 1
             subbinmap = self.xy // denominator
             if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
+                subbinmap = subbinmap % self.nbin[self.ni[ind]]
+            binmap[self.ni[ind]] = subbinmap
             denominator *= self.nbin[self.ni[ind]]
 
         return binmap
-- 
2.43.0


From c0fe0f3a3561baec282f145db09faf080bedfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:26 +0000
Subject: [PATCH 25/54] fix: binned statistics accept lists of values for every
 statistic

---
 skbeam/core/accumulators/binned_statistic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 7ed1c79..750de52 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -288,6 +288,7 @@ class BinnedStatisticDD(object):
         if statistic is None:
             statistic = self.statistic
 
+        values = np.asarray(values)
         self.result = np.empty(self.nbin.prod(), float)
         if statistic == "mean":
             self.result.fill(np.nan)
-- 
2.43.0


From 99f55d38fa9d729cdebf1dbef1e7825c94f6e700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 26/54] fix: histograms count positions just below the upper
 limit in the last bin

---
 skbeam/core/accumulators/histogram.pyx | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..8236140 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -168,11 +168,12 @@ class Histogram:
         cdef cnp.float_t low = self._lows[0]
         cdef cnp.float_t high = self._highs[0]
         cdef cnp.float_t binsize = self._binsizes[0]
+        cdef int nbin = self._nbins[0]
         cdef int i
         cdef int wstride = 0 if weight.size == 1 else 1
         cdef int xlen = len(xval)
         for i in range(xlen):
-            xidx = find_indices(xval[i], low, high, binsize)
+            xidx = find_indices(xval[i], low, high, binsize, nbin)
             if xidx == -1:
                 continue
             data[xidx] += weight[wstride * i]
@@ -186,15 +187,16 @@ class Histogram:
         cdef cnp.float_t [:] low = self._lows
         cdef cnp.float_t [:] high = self._highs
         cdef cnp.float_t [:] binsize = self._binsizes
+        cdef int [:] nbin = self._nbins
         cdef int i
         cdef int xlen = len(xval)
         cdef int ylen = len(yval)
         cdef int wstride = 0 if weight.size == 1 else 1
         for i in range(xlen):
-            xidx = find_indices(xval[i], low[0], high[0], binsize[0])
+            xidx = find_indices(xval[i], low[0], high[0], binsize[0], nbin[0])
             if xidx == -1:
                 continue
-            yidx = find_indices(yval[i], low[1], high[1], binsize[1])
+            yidx = find_indices(yval[i], low[1], high[1], binsize[1], nbin[1])
             if yidx == -1:
                 continue
             data[xidx][yidx] += weight[wstride * i]
@@ -225,6 +227,7 @@ class Histogram:
         cdef cnp.float_t [:] low = mylows
         cdef cnp.float_t [:] high = myhighs
         cdef cnp.float_t [:] binsize = mybinsizes
+        cdef int [:] nbin = self._nbins[coordsorder]
         cdef cnp.float_t* data = <cnp.float_t*> _getarrayptr(self._values)
         # distribute coordinates in each dimension according to their
         # numerical type.  follow the same order as in numtypes.
@@ -247,7 +250,7 @@ class Histogram:
             for k in range(aint_count):
                 j = k
                 xidx = find_indices(aint_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbin[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -257,7 +260,7 @@ class Histogram:
             for k in range(afloat_count):
                 j = k + aint_count
                 xidx = find_indices(afloat_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbin[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -283,16 +286,17 @@ class Histogram:
         return [bin_edges_to_centers(edge) for edge in self.edges]
 
 
-cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
+cdef long find_indices(coordnumtype pos, double low, double high, double binsize, int nbin):
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    # rounding must not push positions just below high past the last bin
+    return min(int((pos - low) / binsize), nbin - 1)
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
                     cnp.float_t* pdata,
-                    double low, double high, double binsize):
-    iidx = find_indices(xval, low, high, binsize)
+                    double low, double high, double binsize, int nbin):
+    iidx = find_indices(xval, low, high, binsize, nbin)
     if iidx == -1:
         return
     pdata[iidx] += weight
-- 
2.43.0


From 78f07ea07f56594254c1bc6e81d5e22446ac62b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:41 +0000
Subject: [PATCH 27/54] fix: N-dimensional histograms accept strided coordinate
 arrays

---
 skbeam/core/accumulators/histogram.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index 8236140..783f50f 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -229,6 +229,8 @@ class Histogram:
         cdef cnp.float_t [:] binsize = mybinsizes
         cdef int [:] nbin = self._nbins[coordsorder]
         cdef cnp.float_t* data = <cnp.float_t*> _getarrayptr(self._values)
+        # the arrays are read through plain pointers
+        coords = [np.ascontiguousarray(x) for x in coords]
         # distribute coordinates in each dimension according to their
         # numerical type.  follow the same order as in numtypes.
         for x in coords:
-- 
2.43.0


From 1afe22edb6eaeb66958f70afecc5b0c7c4e8c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:34 +0000
Subject: [PATCH 28/54] fix: MD_dict no longer destroys leaves addressed as
 branches

---
 skbeam/core/utils.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 16a341f..b2bab87 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -106,14 +106,12 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
+            if k not in tmp:
                 tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-            if isinstance(tmp, md_value):
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -142,15 +140,12 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
-            if isinstance(tmp, md_value):
+            if k not in tmp:
+                return None
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         return tmp.get(key_split[-1], None)
 
-- 
2.43.0


From 980b2ea9081c14448359db839dc07652dbb6a146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:34 +0000
Subject: [PATCH 29/54] fix: MD_dict stores sequences of fewer than two
 elements

---
 skbeam/core/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index b2bab87..4a39459 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -131,9 +131,9 @@ class MD_dict(MutableMapping):
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
-        # catch any type errors from trying to index into non-indexable things
-        # or from trying to use iterables longer than 2
-        except TypeError:
+        # catch any errors from trying to index into non-indexable things
+        # or from trying to use iterables shorter or longer than 2
+        except (TypeError, LookupError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
-- 
2.43.0


From b86b1dbdc65f3f0af7a0f709c93740df0c51f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:34 +0000
Subject: [PATCH 30/54] fix: MD_dict does not print when a value has units

---
 skbeam/core/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 4a39459..027798d 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -126,7 +126,6 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
-- 
2.43.0


From 6d21eab9a02e006bcebc590986ef4675f1532836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:58 +0000
Subject: [PATCH 31/54] fix: find_largest_peak window near the left border

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..99c7bc8 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,7 +131,7 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
         roi = slice(0, -1)
 
-- 
2.43.0


From ce0adce8b1407d7f0cb1ff4719e6c5c140082184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:58 +0000
Subject: [PATCH 32/54] fix: integrate_ROI_spectrum uses the bin centres

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 99c7bc8..1103d8c 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -178,7 +178,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
 
     """
     bin_edges = np.asarray(bin_edges)
-    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges), counts, x_min, x_max)
+    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
 def _formatter_array_regions(x, centers, window=1, tab_count=0):
-- 
2.43.0


From d07c9a9a997bb572b210fec5cc35a98ab49a2faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:03 +0000
Subject: [PATCH 33/54] fix: generate_box_support with a radius larger than
 half the array

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..5a40b0e 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -201,7 +201,7 @@ def generate_box_support(sup_radius, shape_v):
     sup : array
         support with a box area
     """
-    slc_list = [slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v]
+    slc_list = [slice(max(s // 2 - sup_radius, 0), s // 2 + sup_radius) for s in shape_v]
     sup = np.zeros(shape_v)
     sup[tuple(slc_list)] = 1
     return sup
-- 
2.43.0


From 05eed6102327dbfe7ca508ba4ff35ce467e752e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:03 +0000
Subject: [PATCH 34/54] fix: cdi_recon calls the callback every cb_step
 iterations

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 5a40b0e..a439e5d 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -379,7 +379,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From 6206ca00edcea17db3e40eeb754a43813a6feb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:03 +0000
Subject: [PATCH 35/54] fix: cdi_recon does not modify the initial object

---
 skbeam/core/cdi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index a439e5d..bda6765 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -319,6 +319,8 @@ def cdi_recon(
     diffracted_pattern = np.array(diffracted_pattern)  # diffraction data
     diffracted_pattern = np.fft.fftshift(diffracted_pattern)
 
+    sample_obj = np.array(sample_obj)  # the initial object is not modified
+
     pi_modulus_flag = pi_modulus_flag.lower()
     real_operation = False
     if pi_modulus_flag == "real":
-- 
2.43.0


From f9edcc03c5836c87da6b145c53940422506970e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:15 +0000
Subject: [PATCH 36/54] fix: phase reconstruction honours scale=False and
 negate=False without detector geometry

---
 skbeam/core/dpc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..3f37d36 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,9 +519,9 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
@@ -529,10 +529,7 @@ def reconstruct_phase_from_partial_info(
         gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
         gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = gx * -1
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From 29f6c83c9c5cf26cf46b95ad0ab49ca8c4676c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 37/54] fix: set_default works on current Python versions

---
 skbeam/core/fitting/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/models.py b/skbeam/core/fitting/models.py
index 330ad4f..1687524 100644
--- a/skbeam/core/fitting/models.py
+++ b/skbeam/core/fitting/models.py
@@ -65,7 +65,7 @@ def set_default(model_name, func_name):
     func_name : function
         function name of physics peak
     """
-    paras = inspect.getargspec(func_name)
+    paras = inspect.getfullargspec(func_name)
 
     # the first argument is independent variable, also ignored
     # default values are not considered for fitting in this function
-- 
2.43.0


From 8cb38374e993b264b0a0bbbd38b3414ca8046ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:18 +0000
Subject: [PATCH 38/54] fix: xsvs integrates complete windows and averages
 image sets once

---
 skbeam/core/speckle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..ec1b61f 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -197,6 +197,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
             while level < num_times:
                 if not track_level[level]:
                     track_level[level] = 1
+                    # wait for the second image of this level
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
@@ -219,8 +221,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From bf3b92bc25b21bd90996a4242b2ee7c4b99ebce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:18 +0000
Subject: [PATCH 39/54] fix: refine_center assigns the row and column shifts to
 the right axes

---
 skbeam/core/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/calibration.py b/skbeam/core/calibration.py
index 6b1b4a8..f5bbc56 100644
--- a/skbeam/core/calibration.py
+++ b/skbeam/core/calibration.py
@@ -227,7 +227,7 @@ def refine_center(
     # this is doing just one term of a Fourier series
     # note that we have to convert _back_ to pixels from real units
     # TODO do this with better integration/handle repeat better
-    col_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
-    row_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
+    col_shift = np.sum(np.cos(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[1])
+    row_shift = np.sum(np.sin(phi_centers) * mean_dr) * delta / (np.pi * pixel_size[0])
 
     return tuple(np.array(calibrated_center) + np.array([row_shift, col_shift]))
-- 
2.43.0


From daa7de8e0879682b33b733d2d8418f263b1060de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:18 +0000
Subject: [PATCH 40/54] fix: construct_circ_avg_image honours left and right

---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..1adda10 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -130,7 +130,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         default is ``(1, 1)``
     left: float, optional
         pixels smaller than the minimum radius are set to this value
-        (set to None for the value at the minimum radius)
+        (set to None for the value at the minimum radius, the default)
     right: float, optional
         pixels larger than the maximum radius are set to this value
         (set to None for the value at the maximum radius)
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From 1dae6f7f39513a53858b5b0dcb06efb8323de8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:18 +0000
Subject: [PATCH 41/54] fix: construct_rphi_avg_image does not modify its
 inputs and reports mask shapes

---
 skbeam/core/image.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 1adda10..59f87cc 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -229,11 +229,11 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 raise ValueError(
                     "Mask shape ({}, {}) ".format(*mask.shape)
                     + "does not match expected"
-                    + " shape of ({},{})".format(*shape)
+                    + " shape of ({},{})".format(*image.shape)
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
-        image[np.where(mask == 0)] = np.nan
+        image = np.where(mask == 0, np.nan, image)
     if shape is None:
         if center is not None:
             raise ValueError(
@@ -254,7 +254,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From 5af55aa878fc939bd363007bef3bdb22ff40d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 42/54] fix: fit_per_line_nnls works without background
 subtraction

With use_snip=False (the default of fit_pixel_multiprocess_nnls) the
background was used before it was assigned.
---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 691f997..2b7564a 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1519,7 +1519,7 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             bg_sum = np.sum(bg)
             result, res = nnls_fit(y - bg, matv, weights=None)
         else:
-            result, res = nnls_fit(y - bg, matv, weights=None)
+            result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
         r2 = 1 - res / sst
-- 
2.43.0


From 92068b0937f7996d00e9b53045aca3f0fbf67dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 43/54] fix: r_squared of pixel fits uses the squared residual

---
 skbeam/core/fitting/xrf_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2b7564a..4df96c6 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1522,7 +1522,8 @@ def fit_per_line_nnls(data, matv, param, use_snip):
             result, res = nnls_fit(y, matv, weights=None)
 
         sst = np.sum((y - np.mean(y)) ** 2)
-        r2 = 1 - res / sst
+        # nnls returns the 2-norm of the residual
+        r2 = 1 - res**2 / sst
         result = list(result) + [bg_sum, r2]
         out.append(result)
     return np.array(out)
-- 
2.43.0


From e7ac0669f05a4ca17f8a49c83730b8c4949bbe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 44/54] fix: get_activated_lines lists every activated line of
 the family

The slices of the sorted line list assumed four K lines and four M lines;
there are eight K lines, so the K beta 2-5 lines were missing for K
families (and tested for L families).
---
 skbeam/core/fitting/xrf_model.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 4df96c6..2a1a5d7 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1453,8 +1453,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ka1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[:4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "k" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1465,8 +1467,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["la1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[4:-4]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "l" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
@@ -1477,8 +1481,10 @@ def _get_activated_line(incident_energy, elemental_line):
         e = Element(element)
         if e.cs(incident_energy)["ma1"] == 0:
             return
-        for num, item in enumerate(e.emission_line.all[-4:]):
+        for num, item in enumerate(e.emission_line.all):
             line_name = item[0]
+            if "m" not in line_name:
+                continue
             if e.cs(incident_energy)[line_name] == 0:
                 continue
             line_list.append(str(element) + "_" + str(line_name))
-- 
2.43.0


From 4c8e602fe7b3d5b8b8bc13b7993c012f432863b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 45/54] fix: names of the pileup peak parameters match the
 model

add_param built pileup_X_Ydelta_center instead of pileup_X_Y_delta_center,
so position, width and ratio of pileup peaks were never applied.
---
 skbeam/core/fitting/xrf_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 2a1a5d7..322e395 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -535,7 +535,7 @@ class ParamController(object):
             self.params.update({param_name: new_pos})
         else:  # for pileup peak
             linename = "pileup_" + element.replace("-", "_")
-            param_name = linename + param_suffix  # as in lmfit Model
+            param_name = "_".join((linename, param_suffix))  # as in lmfit Model
             new_pos = PARAM_DEFAULTS[kind].copy()
             if constraint is not None:
                 self._element_strategy[param_name] = constraint
-- 
2.43.0


From f52de7cf12c4f48cfd531e425af73620587aaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:21 +0000
Subject: [PATCH 46/54] fix: assemble_models skips elements that are not
 activated

---
 skbeam/core/fitting/xrf_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/fitting/xrf_model.py b/skbeam/core/fitting/xrf_model.py
index 322e395..41724b0 100644
--- a/skbeam/core/fitting/xrf_model.py
+++ b/skbeam/core/fitting/xrf_model.py
@@ -1065,7 +1065,9 @@ class ModelSpectrum(object):
         self.mod = self.compton + self.elastic
 
         for element in self.elemental_lines:
-            self.mod += self.setup_element_model(element)
+            element_mod = self.setup_element_model(element)
+            if element_mod is not None:
+                self.mod += element_mod
 
         # This is just a copy of the parameter list. Multiple occurrances.
         param_hints_elements = self._global_param_hints_elements_to_copy
-- 
2.43.0


From 16115102a6f3b386bf49d237560e4df46cd83133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:46 +0000
Subject: [PATCH 47/54] fix: gsas_writer scales intensities and errors, not
 angles

When the intensities exceed the field width, FXYE files had scaled two theta
values and ESD files unscaled intensities with scaled errors.
---
 skbeam/io/save_powder_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0


From 8ab81d9cadf7abd10135d409241f90faf6d4a850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:46 +0000
Subject: [PATCH 48/54] fix: gsas_reader returns the data points of ESD files
 only

The last record was padded with zero intensities when the number of points
is not a multiple of five.
---
 skbeam/io/gsas_file_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..12ef7f9 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -163,9 +163,14 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values(two theta or intensity)
+        nch = float(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
-- 
2.43.0


From 3df1880a4c73968ebd27c3cf1f5aab646cfba859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 49/54] fix: mask.threshold does not change the mask given or
 the masks yielded before

---
 skbeam/core/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 8d66446..6f03fb9 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -107,6 +107,8 @@ def threshold(images, threshold, mask=None):
     if mask is None:
         mask = np.ones_like(images[0])
     for im in images:
+        # do not change the mask that was given or yielded before
+        mask = np.array(mask)
         bad_pixels = np.where(im >= threshold)
         if len(bad_pixels[0]) != 0:
             mask[bad_pixels] = 0
-- 
2.43.0


From 6c11023d547ceaa45d65a50abc79a4a636671d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 50/54] fix: bin_1D sums integers that overflow their type
 correctly

---
 skbeam/core/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 027798d..ca12415 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -550,6 +550,10 @@ def bin_1D(x, y, nx=None, min_x=None, max_x=None):
 
     # use a weighted histogram to get the bin sum
     bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
+    y = np.asarray(y)
+    if y.dtype.kind in "biu":
+        # the sums of small integers do not fit into their own type
+        y = y.astype(float)
     val, _ = np.histogram(a=x, bins=bins, weights=y)
     # use an un-weighted histogram to get the counts
     count, _ = np.histogram(a=x, bins=bins)
-- 
2.43.0


From 2c20ae28626d75fda6c384f3f1f1250cb2faf969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 51/54] fix: the std of binned statistics does not overflow for
 integer values

---
 skbeam/core/accumulators/binned_statistic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 750de52..f7054c3 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -298,7 +298,7 @@ class BinnedStatisticDD(object):
         elif statistic == "std":
             self.result.fill(0)
             flatsum = np.bincount(self.xy, values)
-            flatsum2 = np.bincount(self.xy, values**2)
+            flatsum2 = np.bincount(self.xy, values.astype(float) ** 2)
             a = self.flatcount.nonzero()
             self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
         elif statistic == "count":
-- 
2.43.0


From e4c4f35ae9bd2e2f0b16a91c4779663281699304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:03 +0000
Subject: [PATCH 52/54] fix: subtract_reference_images gives negative
 differences of unsigned images

---
 skbeam/core/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index ca12415..a0180ad 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -444,7 +444,8 @@ def subtract_reference_images(imgs, is_reference):
             ref_imge = imgs
             continue
         # else, do the subtraction
-        corrected_image.append(imgs - ref_imge)
+        # (with a sign, also for unsigned images)
+        corrected_image.append(np.subtract(imgs, ref_imge, dtype=np.result_type(imgs, ref_imge, np.int8)))
 
     # return the output as a list
     return list(corrected_image)
-- 
2.43.0


From 646ef4ead8651f0ecb655dc9dfa1c935ad1e3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:14 +0000
Subject: [PATCH 53/54] fix: sgolay2d smooths images of unsigned integers

---
 skbeam/core/smoothing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skbeam/core/smoothing.py b/skbeam/core/smoothing.py
index 8cfc6d0..25e5eac 100644
--- a/skbeam/core/smoothing.py
+++ b/skbeam/core/smoothing.py
@@ -89,6 +89,9 @@ def sgolay2d(image, window_size, order, derivative=None):
     for i, exp in enumerate(exps):
         A[:, i] = (dx ** exp[0]) * (dy ** exp[1])
 
+    # differences of unsigned integers would wrap around
+    image = np.asarray(image, dtype=float)
+
     # pad input array with appropriate values at the four borders
     new_shape = image.shape[0] + 2 * half_size, image.shape[1] + 2 * half_size
     smooth_image = np.zeros((new_shape))
-- 
2.43.0


From 5c8cb248d014a03c839aeef2aa8e5fb9d5cc337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:14 +0000
Subject: [PATCH 54/54] fix: log-quadratic peak refinement of spectra of small
 integers

---
 skbeam/core/feature.py      | 2 +-
 skbeam/core/spectroscopy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/feature.py b/skbeam/core/feature.py
index 234724f..df90a82 100644
--- a/skbeam/core/feature.py
+++ b/skbeam/core/feature.py
@@ -210,7 +210,7 @@ def refine_log_quadratic(x, y, Rval_thresh=None):
        interval
 
     """
-    beta, R2 = fit_quad_to_peak(x, np.log(y))
+    beta, R2 = fit_quad_to_peak(x, np.log(np.asarray(y, dtype=float)))
     if Rval_thresh is not None and R2 < Rval_thresh:
         raise PeakRejection()
 
diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 1103d8c..d141ccf 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -135,7 +135,7 @@ def find_largest_peak(x, y, window=None):
     else:
         roi = slice(0, -1)
 
-    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi]))
+    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi].astype(float)))
     return x0, np.exp(y0), 1 / np.sqrt(-2 * w)
 
 
-- 
2.43.0

