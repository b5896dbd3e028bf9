From 7e4030a188c5cf254696a41bc9fa425aade19e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 01/26] fix: only treat pdf evaluation points as a grid x rows
 product when they are one

get_eval_case decided from the number of unique values, so unsorted grids and
per-row points that happen to share values were evaluated in the wrong order.
---
 src/qp/utils.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..ecffbea 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,15 +204,19 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
-        rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+    # The inputs factor only if every row is evaluated on the same grid, in the same order
+    if np.size(x) == np.size(row):
+        changes = np.flatnonzero(np.diff(row))
+        nx = changes[0] + 1 if np.size(changes) else np.size(row)
+    else:
+        nx = np.size(x) // np.size(row)
+    if nx == 0 or np.size(x) % nx != 0 or np.size(row) * nx % np.size(x) != 0:
+        return CASE_FLAT, x, row
+    xx = np.reshape(x, (-1, nx))
+    rr = np.reshape(row, (np.shape(xx)[0], -1))
+    if not (np.all(xx == xx[0]) and np.all(rr == rr[:, :1])):
         return CASE_FLAT, x, row
-    return CASE_FACTOR, xx, np.expand_dims(rr, -1)
+    return CASE_FACTOR, xx[0], rr[:, :1]
 
 
 def evaluate_hist_x_multi_y_flat(x, row, bins, vals, derivs=None):  # pragma: no cover
-- 
2.43.0


From 49046bf9f8d86e80455cb05663d39070c752fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 02/26] fix: mixmod ppf looks up the tabulated cdf of the
 requested row

rvs() raised for mixture models, and ppf() with repeated quantiles read the
table with the row number instead of the position in the table.
---
 src/qp/mixmod_pdf.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..a5ed2ff 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -122,17 +122,12 @@ class mixmod_gen(Pdf_rows_gen):
         min_val = np.min(self._means - 6 * self._stds)
         max_val = np.max(self._means + 6 * self._stds)
         grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
+        # tabulate the cdf of each requested row once, and index into that table
+        rows, table_row = np.unique(row, return_inverse=True)
+        cdf_vals = self.cdf(grid, np.expand_dims(rows, -1))
         return interpolate_multi_x_y(
-            x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
+            x, table_row.reshape(np.shape(row)), cdf_vals, grid,
+            bounds_error=False, fill_value=(min_val, max_val)
         ).ravel()
 
     def _updated_ctor_param(self):
-- 
2.43.0


From c71b8daf89598c6041c7d1c5fed56ad4c7b51dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 03/26] fix: evaluate every quantile-parameterized pdf with its
 own reconstruction

The spline based constructors return one row per distribution for a common
grid, but were handed the flattened points, so all pdfs got the first row's values.
---
 src/qp/quant_pdf.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..2b1c488 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -212,8 +212,17 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # can be bad, but not all. It should be replaced with a more comprehensive
         # normalization function.
         # See qp issue #147
-        row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        # The constructors use `row` to select distributions, and evaluate all of them on the
+        # same grid, so hand them the points of each distribution separately.
+        x, row = (np.ravel(vals) for vals in np.broadcast_arrays(x, args[0]))
+        order = np.argsort(row, kind="stable")
+        rows, starts = np.unique(row[order], return_index=True)
+        yvals = np.zeros(np.shape(x))
+        for irow, idx in zip(rows, np.split(order, starts[1:])):
+            yvals[idx] = np.ravel(
+                self._pdf_constructor.construct_pdf(x[idx], np.array([[irow]]))
+            )
+        return yvals
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From a9f5db685a5968050d71e749585aa8addcf25357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 04/26] fix: keep a private copy of the grid used as the key of
 the gridded pdf cache

Changing the grid array in place made the cache return stale pdf values.
---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..d9ea876 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -338,7 +338,7 @@ class Ensemble:
         the cached value
         """
         if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
+            self._gridded = (np.array(grid), self.pdf(grid))
         return self._gridded
 
     def write_to(self, filename):
-- 
2.43.0


From 97faa1a56828c8023c72b41101dd30fc7bd8768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 05/26] fix: check the ancillary data before updating an
 Ensemble

A rejected update left the new pdfs next to the old ancillary table and the
old gridded cache.
---
 src/qp/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d9ea876..a5ff830 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,9 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        frozen = self._gen_func(**data)
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
         self.set_ancil(ancil)
         self._gridded = None
-- 
2.43.0


From 4848f88adcc42ca0764991dc4ba92d5ddffd11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 06/26] fix: let add_to_ancil start an ancillary table, and not
 write into the caller's

It raised AttributeError on Ensembles without ancillary data, and otherwise
added the columns to the dict that was passed in by the user.
---
 src/qp/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a5ff830..54c2ce3 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -264,7 +264,9 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        ancil = {} if self._ancil is None else dict(self._ancil)
+        ancil.update(to_add)
+        self._ancil = ancil
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From 964736c2e7062272b9ff959d5feeb4d760249cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 07/26] fix: take the mode along the grid axis for Ensembles of
 any shape

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 54c2ce3..3fa5777 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -322,7 +322,7 @@ class Ensemble:
         consistent with mean, median, and other point estimates
         """
         new_grid, griddata = self.gridded(grid)
-        return np.expand_dims(new_grid[np.argmax(griddata, axis=1)], -1)
+        return np.expand_dims(new_grid[np.argmax(griddata, axis=-1)], -1)
 
     def gridded(self, grid):
         """Build, cache are return the PDF values at grid points
-- 
2.43.0


From 3945e16e70bd0d3d990e9c6d8fbb88e56db83d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 08/26] fix: integrate partial moments with the spacing of the
 grid that is used

The nominal dx differs from the spacing of the linspace grid, calculate_moment
already uses the latter.
---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 3fa5777..8235a37 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -607,7 +607,7 @@ class Ensemble:
         """Return the nth moments for this over a particular range"""
         D = int((limits[-1] - limits[0]) / dx)
         grid = np.linspace(limits[0], limits[1], D)
-        # dx = (limits[-1] - limits[0]) / (D - 1)
+        dx = (limits[-1] - limits[0]) / (D - 1)
 
         P_eval = self.gridded(grid)[1]
         grid_to_n = grid**n
-- 
2.43.0


From ebf37e485a10362072e6f02baa003b8fbdd8ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 09/26] fix: use every chunk when evaluating a point metric
 from iterators

Only the centroids of the last chunk were passed to finalize.
---
 src/qp/metrics/base_metric_classes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..b560f7b 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,10 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
-        for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+        centroids = [
+            self.accumulate(est, ref) for est, ref in zip(estimate, reference)
+        ]
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From a2ca3f6c94ecb82d36b5a1e66addfd8e444429f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 10/26] fix: compute the PIT of Ensembles with a single PDF

---
 src/qp/metrics/pit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From d5c208b4a552dc1640373f8b99082d8090870fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:12 +0000
Subject: [PATCH 11/26] fix: compute the Brier score of Ensembles with a single
 PDF

---
 src/qp/metrics/metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
-- 
2.43.0


From 21554b840bf9cc37416d6984467be33c2ef4736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 12/26] fix: accumulate PIT samples from chunks that hold a
 single PDF

Only the samples are needed, building the PIT distribution of the chunk fails
when it is too small to give one.
---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
-- 
2.43.0


From cde3d99cb13ce85af9e0ae503e544e543581d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 13/26] fix: give every chunk read by the iterator its own
 ancillary table

All chunks shared one dict, so the ancillary data of a chunk changed when the
next one was read. Chunks of files without ancillary data now have none, like
the Ensemble returned by read(), and the file is closed if the loop is left early.
---
 src/qp/factory.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..8b9b5fc 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -256,18 +256,23 @@ class Factory(OrderedDict):
             ancil_f, ancil_infp = (None, None)
         num_rows = io.getGroupInputDataLength(f)
         ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-        data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
-        for start, end in ranges:
-            for key, val in f.items():
-                data[key] = io.readHdf5DatasetToArray(val, start, end)
-            if ancil_f is not None:
-                for key, val in ancil_f.items():
-                    ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
-            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-        infp.close()
-        if ancil_infp is not None:
-            ancil_infp.close()
+        try:
+            for start, end in ranges:
+                data_table = OrderedDict()
+                for key, val in f.items():
+                    data_table[key] = io.readHdf5DatasetToArray(val, start, end)
+                data = self._build_data_dict(metadata, data_table)
+                if ancil_f is not None:
+                    ancil_data = OrderedDict()
+                    for key, val in ancil_f.items():
+                        ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
+                else:
+                    ancil_data = None
+                yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
+        finally:
+            infp.close()
+            if ancil_infp is not None:
+                ancil_infp.close()
 
     def convert(self, in_dist, class_name, **kwds):
         """Read an ensemble to a different repersenation
-- 
2.43.0


From 2b80f1b3113fea1f5ad48b49977e85b835b9a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 14/26] fix: close the files opened by data_length and
 read_dict

---
 src/qp/factory.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 8b9b5fc..e52a365 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -223,8 +223,11 @@ class Factory(OrderedDict):
         -------
         nrows : `int`
         """
-        f, _ = io.readHdf5Group(filename, "data")
-        num_rows = io.getGroupInputDataLength(f)
+        f, infp = io.readHdf5Group(filename, "data")
+        try:
+            num_rows = io.getGroupInputDataLength(f)
+        finally:
+            infp.close()
         return num_rows
 
     def iterator(self, filename, chunk_size=100_000, rank=0, parallel_size=1):
@@ -390,10 +393,13 @@ class Factory(OrderedDict):
             keys = io.readHdf5GroupNames(filename, top_level_group)
             for key_name in keys:
                 # retrieve the hdf5 group object
-                group_object, _ = io.readHdf5Group(filename, f"{top_level_group}/{key_name}")
+                group_object, infp = io.readHdf5Group(filename, f"{top_level_group}/{key_name}")
 
                 # use the hdf5 group object to gather data into a dictionary
-                tables[key_name] = io.readHdf5GroupToDict(group_object)
+                try:
+                    tables[key_name] = io.readHdf5GroupToDict(group_object)
+                finally:
+                    infp.close()
 
             results[top_level_group] = from_tables(tables)
 
-- 
2.43.0


From 0e1d37b4c603343e738387c6cdde279e59a0ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 15/26] fix: histogram samples of Ensembles with as many PDFs
 as bins

The vectorize signature named the sample axis after the number of PDFs.
---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..3a5ecfb 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -143,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
         return np.histogram(sample, bins=bins)[0]
 
     vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
+        hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
-- 
2.43.0


From becf706766b593853e7a5a692a6c2419236e512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 16/26] fix: make conversions that draw samples reproducible
 with random_state

It was ignored when sampling for histograms and kdes, and when initializing the
mixture model fit.
---
 src/qp/conversion_funcs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 3a5ecfb..1e62999 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -77,13 +77,17 @@ def extract_samples(in_dist, **kwargs):
     ----------------
     size : `int`
         Number of samples to generate
+    random_state : `int`
+        Used to reproducibly generate random variate from in_dist
 
     Returns
     -------
     data : `dict`
         The extracted data
     """
-    samples = in_dist.rvs(size=kwargs.pop("size", 1000))
+    samples = in_dist.rvs(
+        size=kwargs.pop("size", 1000), random_state=kwargs.pop("random_state", None)
+    )
     xvals = kwargs.pop("xvals")
     return dict(samples=samples, xvals=xvals, yvals=None)
 
@@ -127,6 +131,8 @@ def extract_hist_samples(in_dist, **kwargs):
         Histogram bin edges
     size : `int`
         Number of samples to generate
+    random_state : `int`
+        Used to reproducibly generate random variate from in_dist
 
     Returns
     -------
@@ -137,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
     size = kwargs.pop("size", 1000)
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
-    samples = in_dist.rvs(size=size)
+    samples = in_dist.rvs(size=size, random_state=kwargs.pop("random_state", None))
 
     def hist_helper(sample):
         return np.histogram(sample, bins=bins)[0]
@@ -225,9 +231,13 @@ def extract_mixmod_fit_samples(in_dist, **kwargs):
     n_sample = kwargs.pop("nsamples", 1000)
     random_state = kwargs.pop("random_state", None)
     samples = in_dist.rvs(size=n_sample, random_state=random_state)
+    if isinstance(random_state, np.random.Generator):
+        random_state = np.random.RandomState(random_state.bit_generator)
 
     def mixmod_helper(samps):
-        estimator = mixture.GaussianMixture(n_components=n_comps)
+        estimator = mixture.GaussianMixture(
+            n_components=n_comps, random_state=random_state
+        )
         estimator.fit(samps.reshape(-1, 1))
         weights = estimator.weights_
         means = estimator.means_[:, 0]
-- 
2.43.0


From 99dbace42826fe72f7f126e4a32119bd798cd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 17/26] fix: convert the probability per bin to a density
 before making a histogram pdf

The histogram representation is normalized assuming densities, so conversions to
non-uniform bins gave pdfs that were too high in the wide bins.
---
 src/qp/conversion_funcs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 1e62999..7485125 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -12,6 +12,7 @@ from .sparse_rep import (
     decode_sparse_indices,
     indices2shapes,
 )
+from .utils import bin_widths
 
 
 def extract_vals_at_x(in_dist, **kwargs):
@@ -114,7 +115,7 @@ def extract_hist_values(in_dist, **kwargs):
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
     bins, pdfs = in_dist.histogramize(bins)
-    return dict(bins=bins, pdfs=pdfs)
+    return dict(bins=bins, pdfs=pdfs / bin_widths(bins))
 
 
 def extract_hist_samples(in_dist, **kwargs):
@@ -152,7 +153,7 @@ def extract_hist_samples(in_dist, **kwargs):
         hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
     pdfs = vv(samples)
-    return dict(bins=bins, pdfs=pdfs)
+    return dict(bins=bins, pdfs=pdfs / bin_widths(bins))
 
 
 def extract_quantiles(in_dist, **kwargs):
-- 
2.43.0


From 8c834f0415c5271529b929d5a7b61f253a855640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 18/26] fix: weight each point by its own spacing when
 computing moments

The moments of histogram and interpolated pdfs assumed a uniform grid, and were
wrong on any other.
---
 src/qp/hist_pdf.py          | 3 +--
 src/qp/interp_pdf.py        | 4 ++--
 src/qp/packed_interp_pdf.py | 4 ++--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..13d868d 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -140,9 +140,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..161395f 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -154,8 +154,8 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        dx = np.gradient(self._xvals)
+        return np.sum(self._xvals**m * self._yvals * dx, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..ec0bd98 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -213,10 +213,10 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
+        dx = np.gradient(self._xvals)
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.sum(self._xvals**m * self._yvals * dx, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From bebf51d9239396434100e970e0a9780130d5c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 19/26] fix: remember that a pdf was created with
 check_input=False

The flag was not among the constructor parameters of the histogram and the
interpolated representations, so they were normalized anyway when frozen, and
when slicing, appending or reading back.
---
 src/qp/hist_pdf.py          |  6 ++++--
 src/qp/interp_pdf.py        | 12 ++++++++----
 src/qp/packed_interp_pdf.py |  6 ++++--
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 13d868d..94f48bd 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -73,8 +73,8 @@ class hist_gen(Pdf_rows_gen):
                 % (self._nbins, np.shape(pdfs)[-1])
             )
 
-        check_input = kwargs.pop("check_input", True)
-        if check_input:
+        self._check_input = kwargs.pop("check_input", True)
+        if self._check_input:
             pdfs_2d = reshape_to_pdf_size(pdfs, -1)
             sums = np.sum(pdfs_2d * self._hbin_widths, axis=1)
             self._hpdfs = (pdfs_2d.T / sums).T
@@ -85,6 +85,7 @@ class hist_gen(Pdf_rows_gen):
         kwargs["shape"] = pdfs.shape[:-1]
         super().__init__(*args, **kwargs)
         self._addmetadata("bins", self._hbins)
+        self._addmetadata("check_input", self._check_input)
         self._addobjdata("pdfs", self._hpdfs)
 
     def _compute_cdfs(self):
@@ -150,6 +151,7 @@ class hist_gen(Pdf_rows_gen):
         dct = super()._updated_ctor_param()
         dct["bins"] = self._hbins
         dct["pdfs"] = self._hpdfs
+        dct["check_input"] = self._check_input
         return dct
 
     @classmethod
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 161395f..e6cb1aa 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -82,8 +82,8 @@ class interp_gen(Pdf_rows_gen):
 
         self._yvals = reshape_to_pdf_size(yvals, -1)
 
-        check_input = kwargs.pop("check_input", True)
-        if check_input:
+        self._check_input = kwargs.pop("check_input", True)
+        if self._check_input:
             self._compute_ycumul()
             self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
             self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
@@ -92,6 +92,7 @@ class interp_gen(Pdf_rows_gen):
 
         super().__init__(*args, **kwargs)
         self._addmetadata("xvals", self._xvals)
+        self._addmetadata("check_input", self._check_input)
         self._addobjdata("yvals", self._yvals)
 
     def _compute_ycumul(self):
@@ -164,6 +165,7 @@ class interp_gen(Pdf_rows_gen):
         dct = super()._updated_ctor_param()
         dct["xvals"] = self._xvals
         dct["yvals"] = self._yvals
+        dct["check_input"] = self._check_input
         return dct
 
     @classmethod
@@ -277,12 +279,13 @@ class interp_irregular_gen(Pdf_rows_gen):
         self._xmax = np.max(self._xvals)
         kwargs["shape"] = np.shape(xvals)[:-1]
 
-        check_input = kwargs.pop("check_input", True)
+        self._check_input = kwargs.pop("check_input", True)
         self._yvals = reshape_to_pdf_size(yvals, -1)
-        if check_input:
+        if self._check_input:
             self._yvals = normalize_interp1d(self._xvals, self._yvals)
         self._ycumul = None
         super().__init__(*args, **kwargs)
+        self._addmetadata("check_input", self._check_input)
         self._addobjdata("xvals", self._xvals)
         self._addobjdata("yvals", self._yvals)
 
@@ -340,6 +343,7 @@ class interp_irregular_gen(Pdf_rows_gen):
         dct = super()._updated_ctor_param()
         dct["xvals"] = self._xvals
         dct["yvals"] = self._yvals
+        dct["check_input"] = self._check_input
         return dct
 
     @classmethod
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index ec0bd98..7c70742 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -106,8 +106,8 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         self._ymax = reshape_to_pdf_size(ymax, -1)
         self._ypacked = reshape_to_pdf_size(ypacked, -1)
 
-        check_input = kwargs.pop("check_input", True)
-        if check_input:
+        self._check_input = kwargs.pop("check_input", True)
+        if self._check_input:
             self._compute_ycumul()
             self._yvals = (self._yvals.T / self._ycumul[:, -1]).T
             self._ycumul = (self._ycumul.T / self._ycumul[:, -1]).T
@@ -118,6 +118,7 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         self._addmetadata("xvals", self._xvals)
         self._addmetadata("packing_type", self._packing_type)
         self._addmetadata("log_floor", self._log_floor)
+        self._addmetadata("check_input", self._check_input)
         self._addobjdata("ypacked", self._ypacked)
         self._addobjdata("ymax", self._ymax)
 
@@ -228,6 +229,7 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         dct["ymax"] = self._ymax
         dct["log_floor"] = self._log_floor
         dct["packing_type"] = PackingType(self._packing_type)
+        dct["check_input"] = self._check_input
         return dct
 
     @classmethod
-- 
2.43.0


From 87764203c63760dab0b12e178010adf958fe2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 20/26] fix: keep the basis cut of sparse pdfs when they are
 frozen, sliced or stored

---
 src/qp/sparse_pdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/sparse_pdf.py b/src/qp/sparse_pdf.py
index be40cfe..c1ce4b4 100644
--- a/src/qp/sparse_pdf.py
+++ b/src/qp/sparse_pdf.py
@@ -37,10 +37,10 @@ class sparse_gen(interp_gen):
         self.mu = mu
         self.sig = sig
         self.dims = dims
-        cut = kwargs.pop("cut", 1.0e-5)
+        self._cut = kwargs.pop("cut", 1.0e-5)
         # recreate the basis array from the metadata
         sparse_meta = dict(xvals=xvals, mu=mu, sig=sig, dims=dims)
-        A = sparse_rep.create_basis(sparse_meta, cut=cut)
+        A = sparse_rep.create_basis(sparse_meta, cut=self._cut)
         # decode the sparse indices into basis indices and weights
         basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
         # retrieve the weighted array of basis functions for each object
@@ -59,6 +59,7 @@ class sparse_gen(interp_gen):
         self._addmetadata("mu", self.mu)
         self._addmetadata("sig", self.sig)
         self._addmetadata("dims", self.dims)
+        self._addmetadata("cut", self._cut)
         self._addobjdata("sparse_indices", self.sparse_indices)
 
     def _updated_ctor_param(self):
@@ -71,6 +72,7 @@ class sparse_gen(interp_gen):
         dct["mu"] = self.mu
         dct["sig"] = self.sig
         dct["dims"] = self.dims
+        dct["cut"] = self._cut
         return dct
 
     @classmethod
-- 
2.43.0


From 33545390d2da8588a0dc9eefef067fbdab8f00ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 21/26] fix: allocate the requested number of rows for spline
 pdfs

---
 src/qp/spline_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..22857a8 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -294,8 +294,8 @@ class spline_gen(Pdf_rows_gen):
         if "splx" not in kwargs:  # pragma: no cover
             raise ValueError("required argument splx not included in kwargs")
 
-        shape = np.shape(kwargs["splx"])
-        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((shape[0], 1), "i4"))
+        shape = (npdf, np.shape(kwargs["splx"])[-1])
+        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((npdf, 1), "i4"))
 
     @classmethod
     def plot_native(cls, pdf, **kwargs):
-- 
2.43.0


From d5bf27388aa6b06a1498fb6a96c8fd69db212294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:34 +0000
Subject: [PATCH 22/26] fix: name the missing argument when allocating quantile
 pdfs

---
 src/qp/quant_pdf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 2b1c488..d0de96b 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -265,10 +265,9 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         for iterative writeout.  We only need to allocate the objdata columns, as
         the metadata can be written when we finalize the file.
         """
-        try:
-            quants = kwargs["quants"]
-        except ValueError:  # pragma: no cover
-            print("required argument 'quants' not included in kwargs")
+        if "quants" not in kwargs:  # pragma: no cover
+            raise ValueError("required argument 'quants' not included in kwargs")
+        quants = kwargs["quants"]
         nquants = np.shape(quants)[-1]
         return dict(locs=((npdf, nquants), "f4"))
 
-- 
2.43.0


From 9f8f098b5b124404b746c0e29200890b17708c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 23/26] fix: default number of sigmas when the range of sigmas
 is given

---
 src/qp/sparse_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..6e4bf9e 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -241,7 +241,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         min_sig = dx / 6.0
         sig = [min_sig, max_sig]
     if Nsig is None:
-        Nsig = int(np.ceil(2.0 * (max_sig - min_sig) / dx))
+        Nsig = int(np.ceil(2.0 * (sig[1] - sig[0]) / dx))
 
     if verbose:
         print("dx = ", dx)
-- 
2.43.0


From 46f9cc2d8bec22020e5cd8fc8a4a6639b75381e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 24/26] fix: restore the whole dictionary after each sparse
 decomposition

---
 src/qp/sparse_rep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 6e4bf9e..8fd79a9 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -269,6 +269,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
     Sparse_Array = np.zeros((Ntot, Nsparse), dtype="int")
     for k in range(Ntot):
         pdf0 = P[k]
+        first_columns = A[:, :Nsparse].copy()
 
         Dind, Dval = sparse_basis(A, pdf0, Nsparse, tolerance=tol)
 
@@ -287,8 +288,9 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
+        # swap back columns, the displaced ones as well as the selected ones
         A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
+        A[:, :Nsparse] = first_columns
 
     if verbose:
         print("done")
-- 
2.43.0


From e8db3731faf1fca57fd2b60abf37fe9049cb9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 25/26] fix: encode the sparse weights relative to the first
 one

---
 src/qp/sparse_rep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 8fd79a9..2a299dc 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -276,9 +276,10 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         if len(Dind) < 1:  # pragma: no cover
             continue
         # bigD[k]['sparse'] = [Dind, Dval]
-        if max(Dval) > 0:
-            dval0 = Dval[0]
-            Dvalm = Dval / np.max(Dval)
+        dval0 = Dval[0]
+        if dval0 != 0:
+            # the first weight is decoded as one, so the others are relative to it
+            Dvalm = Dval / dval0
             index = np.array(list(map(round, (Dvalm / Da))), dtype="int")
             index0 = int(round(dval0 / Da))
             index[0] = index0
-- 
2.43.0


From 18eefcffba79410c8220b12f6725b87d9ea73356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 26/26] fix: append and concatenate ensembles made by other
 creation methods

---
 src/qp/ensemble.py | 8 ++++++--
 src/qp/factory.py  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 8235a37..63d0058 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,10 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        frozen = self._gen_func(**data)
+        self._update_frozen(self._gen_func(**data), ancil)
+
+    def _update_frozen(self, frozen, ancil=None):
+        """Replace the frozen object, and drop what was computed from the old one"""
         check_array_shapes(ancil, frozen.npdf)
         self._frozen = frozen
         self._gen_obj = self._frozen.dist
@@ -193,7 +196,8 @@ class Ensemble:
             new_data[k] = np.squeeze(v)
         new_data.update(self.objdata())
         new_data.update(data)
-        self.update(new_data, ancil)
+        # gen_func may expect the arguments of another creation method
+        self._update_frozen(self._gen_obj.create(**new_data), ancil)
 
     def metadata(self):
         """Return the metadata for this ensemble
diff --git a/src/qp/factory.py b/src/qp/factory.py
index e52a365..bf56c3e 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -345,7 +345,8 @@ class Factory(OrderedDict):
             metadata_list.append(ensemble.metadata())
             objdata_list.append(ensemble.objdata())
             if gen_func is None:
-                gen_func = ensemble.gen_func
+                # the object data are the arguments of the default creation method
+                gen_func = ensemble.gen_obj.create
             if ancil_list is not None:
                 if ensemble.ancil is None:
                     ancil_list = None
-- 
2.43.0

