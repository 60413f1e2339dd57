From 209d48733736b2f9ecf2d4421012a8d905375987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 01/18] fix: classify each score threshold independently of the
 ones before it

---
 src/valor_lite/classification/computation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index eb5b2e2..224333a 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,9 +287,11 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score = scores > 1e-9
+    mask_score_nonzero = scores > 1e-9
     for score_idx in range(n_scores):
-        mask_score &= scores >= score_thresholds[score_idx]
+        mask_score = mask_score_nonzero & (
+            scores >= score_thresholds[score_idx]
+        )
         if hardmax:
             mask_score &= winners
 
-- 
2.43.0


From 0e1f50fcab9d76844387029c3dc4f00f6eb5b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 02/18] fix: classification accuracy is relative to the datums
 that pass the filter

---
 src/valor_lite/classification/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/classification/evaluator.py b/src/valor_lite/classification/evaluator.py
index b6d9e57..b4ce159 100644
--- a/src/valor_lite/classification/evaluator.py
+++ b/src/valor_lite/classification/evaluator.py
@@ -593,8 +593,9 @@ class Evaluator:
             raise ValueError("At least one score threshold must be passed.")
 
         n_scores = len(score_thresholds)
-        n_datums = self.info.number_of_datums
-        n_labels = self.info.number_of_labels
+        info = self.get_info(datums=datums)
+        n_datums = info.number_of_datums
+        n_labels = info.number_of_labels
 
         # intermediates
         counts = np.zeros((n_scores, n_labels, 4), dtype=np.uint64)
-- 
2.43.0


From 68395fd6bd483e683b069cd54d14541151328da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 03/18] fix: refuse to finalize an object detection cache twice

---
 src/valor_lite/object_detection/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/object_detection/evaluator.py b/src/valor_lite/object_detection/evaluator.py
index 2585e40..ccf687f 100644
--- a/src/valor_lite/object_detection/evaluator.py
+++ b/src/valor_lite/object_detection/evaluator.py
@@ -183,6 +183,8 @@ class Builder:
         self._detailed_writer.flush()
         if self._detailed_writer.count_rows() == 0:
             raise EmptyCacheError()
+        elif self._ranked_writer.count_rows() > 0:
+            raise RuntimeError("data already finalized")
 
         self._detailed_writer.sort_by(
             [
-- 
2.43.0


From 682936950aab4b031b8151b01c974489b54cc48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 04/18] fix: track the remainder of an overlapping bitmask when
 resolving overlaps

---
 src/valor_lite/semantic_segmentation/annotation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/semantic_segmentation/annotation.py b/src/valor_lite/semantic_segmentation/annotation.py
index b4170e6..b5cce6f 100644
--- a/src/valor_lite/semantic_segmentation/annotation.py
+++ b/src/valor_lite/semantic_segmentation/annotation.py
@@ -110,6 +110,7 @@ class Segmentation:
                 mask_overlap_accumulation = (
                     mask_overlap_accumulation | mask_overlap
                 )
+                mask_accumulation = mask_accumulation | bitmask.mask
             else:
                 mask_accumulation = mask_accumulation | bitmask.mask
         if (
-- 
2.43.0


From c040babe35fa174b5cace86e474be30ac00b4d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 05/18] fix: report a non-string verdict as an invalid LLM
 response

---
 src/valor_lite/text_generation/llm/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/validators.py b/src/valor_lite/text_generation/llm/validators.py
index 83d8735..5dce653 100644
--- a/src/valor_lite/text_generation/llm/validators.py
+++ b/src/valor_lite/text_generation/llm/validators.py
@@ -59,7 +59,7 @@ def validate_verdicts(
             raise InvalidLLMResponseError(
                 f"LLM response is malformed. Inner dictionaries should only contain keys 'verdict' and 'analysis': {response} "
             )
-        elif (
+        elif not isinstance(value["verdict"], str) or (
             allowed_values is not None
             and value["verdict"] not in allowed_values
         ):
-- 
2.43.0


From 38f8348e896f15fa964760f882a9d530d3256a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 06/18] fix: keep insertion order when a table is written to a
 buffered in-memory cache

---
 src/valor_lite/cache/ephemeral.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index 92c4e5d..bb1ac3e 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -254,6 +254,7 @@ class MemoryCacheWriter(MemoryCache):
         table : pa.Table
             A populated table.
         """
+        self.flush()
         self._table = pa.concat_tables([self._table, table])
 
     def flush(self):
-- 
2.43.0


From eb61e4e907a8d5e9267d95fc24b0e76659f6beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 07/18] fix: reopen a file cache whose configuration holds
 falsy values

---
 src/valor_lite/cache/persistent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05356a9..05b4b6a 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -131,8 +131,8 @@ class FileCacheReader(FileCache):
             )
 
         def _retrieve(config: dict, key: str):
-            if value := config.get(key, None):
-                return value
+            if key in config:
+                return config[key]
             raise KeyError(
                 f"'{key}' is not defined within {cls._generate_config_path(path)}"
             )
-- 
2.43.0


From 09e384945224f9285742fc723baf039b8675b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 08/18] fix: honor the configured compression in write_table
 and sort_by

---
 src/valor_lite/cache/persistent.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 05b4b6a..078b39e 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -458,7 +458,11 @@ class FileCacheWriter(FileCache):
             A populated table.
         """
         self.flush()
-        pq.write_table(table, where=self._generate_next_filename())
+        pq.write_table(
+            table,
+            where=self._generate_next_filename(),
+            compression=self._compression,
+        )
 
     def flush(self):
         """Flush the cache buffer."""
@@ -494,7 +498,7 @@ class FileCacheWriter(FileCache):
             tbl = pf.read()
             pf.close()
             sorted_tbl = tbl.sort_by(sorting)
-            pq.write_table(sorted_tbl, file)
+            pq.write_table(sorted_tbl, file, compression=self._compression)
 
     def _generate_next_filename(self) -> Path:
         """Generates next dataset filepath."""
-- 
2.43.0


From cbcb0db2bf61b468e5106d8a17fa4db77d5288c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:14 +0000
Subject: [PATCH 09/18] fix: sort a multi-file cache into an in-memory sink
 without dropping rows

---
 src/valor_lite/cache/compute.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/valor_lite/cache/compute.py b/src/valor_lite/cache/compute.py
index 1a1dbf6..a40af4a 100644
--- a/src/valor_lite/cache/compute.py
+++ b/src/valor_lite/cache/compute.py
@@ -146,15 +146,14 @@ def sort(
             schema=sink.schema,
             batch_size=sink.batch_size,
         )
-        _merge(
-            source=source,
-            sink=sink,
-            intermediate_sink=intermediate_sink,
-            batch_size=batch_size,
-            sorting=sorting,
-            columns=columns,
-            table_sort_override=table_sort_override,
-        )
+        for tbl in source.iterate_tables(columns=columns):
+            if table_sort_override is not None:
+                tbl = table_sort_override(tbl)
+            intermediate_sink.write_table(tbl)
+        intermediate_sink.sort_by(sorting)
+        for tbl in intermediate_sink.to_reader().iterate_tables():
+            sink.write_table(tbl)
+        sink.flush()
 
 
 def paginate_index(
-- 
2.43.0


From 5848e1a46afec9b8e9e9a1e0e68bd03fee240a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 10/18] fix: keep ROCAUC within [0, 1] when a ground truth
 label is not predicted

---
 src/valor_lite/classification/shared.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/shared.py b/src/valor_lite/classification/shared.py
index fdc9b1e..191774d 100644
--- a/src/valor_lite/classification/shared.py
+++ b/src/valor_lite/classification/shared.py
@@ -175,7 +175,8 @@ def extract_groundtruth_count_per_label(
         pd_ids = np.column_stack(
             [pd_tbl[col].to_numpy() for col in ["datum_id", "pd_label_id"]]
         ).astype(np.int64)
-        unique_pds = np.unique(pd_ids, axis=0)
+        # ground truths that were never predicted are part of the population
+        unique_pds = np.unique(np.concatenate([gt_ids, pd_ids]), axis=0)
         unique_pd_labels, pd_label_counts = np.unique(
             unique_pds[:, 1], return_counts=True
         )
-- 
2.43.0


From f612952c8b409911cb48e48aa3a4a144b8ca04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 11/18] fix: count every bitmask when a label repeats within a
 segmentation datum

---
 .../semantic_segmentation/computation.py      | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/valor_lite/semantic_segmentation/computation.py b/src/valor_lite/semantic_segmentation/computation.py
index 087e57d..f47ff1d 100644
--- a/src/valor_lite/semantic_segmentation/computation.py
+++ b/src/valor_lite/semantic_segmentation/computation.py
@@ -47,14 +47,23 @@ def compute_intermediates(
 
     confusion_matrix = np.zeros((n_labels + 1, n_labels + 1), dtype=np.uint64)
     confusion_matrix[0, 0] = background_counts
-    confusion_matrix[
-        np.ix_(groundtruth_labels + 1, prediction_labels + 1)
-    ] = intersection_counts
-    confusion_matrix[0, prediction_labels + 1] = (
-        prediction_counts - intersected_prediction_counts
+    # labels may repeat within a datum
+    np.add.at(
+        confusion_matrix,
+        np.ix_(groundtruth_labels + 1, prediction_labels + 1),
+        intersection_counts.astype(np.uint64),
     )
-    confusion_matrix[groundtruth_labels + 1, 0] = (
-        groundtruth_counts - intersected_groundtruth_counts
+    np.add.at(
+        confusion_matrix,
+        (0, prediction_labels + 1),
+        (prediction_counts - intersected_prediction_counts).astype(np.uint64),
+    )
+    np.add.at(
+        confusion_matrix,
+        (groundtruth_labels + 1, 0),
+        (groundtruth_counts - intersected_groundtruth_counts).astype(
+            np.uint64
+        ),
     )
     return confusion_matrix
 
-- 
2.43.0


From 3f4fd13a4bd8d49a35ba808555acce2a293803fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 12/18] fix: report a mean IOU of 0 instead of NaN when there
 are no labels

---
 src/valor_lite/semantic_segmentation/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/semantic_segmentation/utilities.py b/src/valor_lite/semantic_segmentation/utilities.py
index b7616fc..168b0ed 100644
--- a/src/valor_lite/semantic_segmentation/utilities.py
+++ b/src/valor_lite/semantic_segmentation/utilities.py
@@ -55,7 +55,7 @@ def unpack_precision_recall_iou_into_metric_lists(
 
     metrics[MetricType.mIOU] = [
         Metric.mean_iou(
-            value=float(ious.diagonal().mean()),
+            value=float(ious.diagonal().mean()) if n_labels > 0 else 0.0,
         )
     ]
 
-- 
2.43.0


From 5389ac171afcffbdd6354b88501f28529a0fb49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 13/18] fix: context recall scores a ground truth without
 statements as 0

---
 src/valor_lite/text_generation/computation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valor_lite/text_generation/computation.py b/src/valor_lite/text_generation/computation.py
index d1f9bc8..5382c9b 100644
--- a/src/valor_lite/text_generation/computation.py
+++ b/src/valor_lite/text_generation/computation.py
@@ -313,6 +313,8 @@ def calculate_context_recall(
         scores.append(
             sum(verdict["verdict"] == "yes" for verdict in verdicts)
             / len(verdicts)
+            if len(verdicts) > 0
+            else 0.0
         )
 
     return max(scores)
-- 
2.43.0


From 1a0f07367a3a1965620a3b7ed103fcbd2818a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:57 +0000
Subject: [PATCH 14/18] fix: iterate tables with arrays when no columns are
 selected

---
 src/valor_lite/cache/ephemeral.py  | 6 ++++--
 src/valor_lite/cache/persistent.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/valor_lite/cache/ephemeral.py b/src/valor_lite/cache/ephemeral.py
index bb1ac3e..50cefa6 100644
--- a/src/valor_lite/cache/ephemeral.py
+++ b/src/valor_lite/cache/ephemeral.py
@@ -108,12 +108,14 @@ class MemoryCacheReader(MemoryCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
diff --git a/src/valor_lite/cache/persistent.py b/src/valor_lite/cache/persistent.py
index 078b39e..e4c4505 100644
--- a/src/valor_lite/cache/persistent.py
+++ b/src/valor_lite/cache/persistent.py
@@ -245,12 +245,14 @@ class FileCacheReader(FileCache):
         """
         _columns = set(columns) if columns else set()
         _numeric_columns = set(numeric_columns) if numeric_columns else set()
-        columns = list(_columns.union(_numeric_columns))
+        columns = list(_columns.union(_numeric_columns)) or None
         for tbl in self.iterate_tables(
             columns=columns,
             filter=filter,
         ):
-            table_columns = numeric_columns if numeric_columns else tbl.columns
+            table_columns = (
+                numeric_columns if numeric_columns else tbl.column_names
+            )
             yield tbl, np.column_stack(
                 [tbl[col].to_numpy() for col in table_columns]
             )
-- 
2.43.0


From 2c3da1909d4a98bd12741248f14f34bb6c037e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 15/18] fix: treat a Mistral response cut off at the model's
 length as truncated

---
 src/valor_lite/text_generation/llm/integrations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/text_generation/llm/integrations.py b/src/valor_lite/text_generation/llm/integrations.py
index 1461ae2..bf23d08 100644
--- a/src/valor_lite/text_generation/llm/integrations.py
+++ b/src/valor_lite/text_generation/llm/integrations.py
@@ -215,7 +215,7 @@ class MistralWrapper:
             0
         ].finish_reason  # Enum: "stop" "length" "model_length" "error" "tool_calls"
 
-        if finish_reason == "length":
+        if finish_reason in ("length", "model_length"):
             raise ValueError(
                 "Mistral response reached max token limit. Resulting evaluation is likely invalid or of low quality."
             )
-- 
2.43.0


From cbd275da8bbcdcca1eae23a82dd8253ddfbfe73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:23 +0000
Subject: [PATCH 16/18] fix: integrate the ROC curve from its origin when
 chunks split it

---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 224333a..14156cd 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -59,7 +59,7 @@ def compute_rocauc(
 
         fps = cumulative_fp[mask_pds]
         tps = cumulative_tp[mask_pds]
-        if prev[label_idx, 0] > 0 or prev[label_idx, 1] > 0:
+        if prev[label_idx, 0] != fps[0] or prev[label_idx, 1] != tps[0]:
             fps = np.r_[prev[label_idx, 0], fps]
             tps = np.r_[prev[label_idx, 1], tps]
 
-- 
2.43.0


From 90853eb2a8acf4ebdc7983c0293e90390ae5f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:25 +0000
Subject: [PATCH 17/18] fix: count detections as matched at an IOU threshold of
 0

---
 src/valor_lite/object_detection/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/object_detection/computation.py b/src/valor_lite/object_detection/computation.py
index ad31932..e3333cf 100644
--- a/src/valor_lite/object_detection/computation.py
+++ b/src/valor_lite/object_detection/computation.py
@@ -410,7 +410,7 @@ def compute_counts(
 
     for iou_idx in range(n_ious):
         mask_iou_curr = ious >= iou_thresholds[iou_idx]
-        mask_iou_prev = prev_ious < iou_thresholds[iou_idx]
+        mask_iou_prev = prev_ious < max(iou_thresholds[iou_idx], EPSILON)
         mask_iou = mask_iou_curr & mask_iou_prev
 
         mask_tp_outer = mask_tp & mask_iou
-- 
2.43.0


From c6f89d5a16128769d3d70293cd6fe0545bd19c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:08 +0000
Subject: [PATCH 18/18] fix: treat near-zero classification scores alike in
 counts and confusion matrices

---
 src/valor_lite/classification/computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valor_lite/classification/computation.py b/src/valor_lite/classification/computation.py
index 14156cd..adae866 100644
--- a/src/valor_lite/classification/computation.py
+++ b/src/valor_lite/classification/computation.py
@@ -287,7 +287,7 @@ def compute_pair_classifications(
     )
 
     mask_label_match = np.isclose(gt_labels, pd_labels)
-    mask_score_nonzero = scores > 1e-9
+    mask_score_nonzero = ~np.isclose(scores, 0.0)
     for score_idx in range(n_scores):
         mask_score = mask_score_nonzero & (
             scores >= score_thresholds[score_idx]
-- 
2.43.0

