From 468846a18ca5f372253b35e3c1f761668075f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 01/15] fix: compare segmentations that contain no boundaries
 instead of raising ValueError

---
 segeval/similarity/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segeval/similarity/__init__.py b/segeval/similarity/__init__.py
index 220811b..08d019f 100644
--- a/segeval/similarity/__init__.py
+++ b/segeval/similarity/__init__.py
@@ -61,9 +61,10 @@ def __boundary_statistics__(
     # Apply weighting functions
     fnc_weight_a, fnc_weight_s, fnc_weight_t = weight
     count_additions = fnc_weight_a(additions)
-    count_substitutions = fnc_weight_s(substitutions,
-                                       max(boundary_types),
-                                       min(boundary_types))
+    # Segmentations without any boundaries have no types to scale by
+    max_type = max(boundary_types) if boundary_types else 1
+    min_type = min(boundary_types) if boundary_types else 1
+    count_substitutions = fnc_weight_s(substitutions, max_type, min_type)
     count_transpositions = fnc_weight_t(transpositions, n_t)
     count_edits = count_additions + count_substitutions + count_transpositions
     # Compute
-- 
2.43.0


From be4c96f6d640a5c3196a8152560e6607a05d6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 02/15] fix: similarity values are Decimal under unscaled
 weights, so one_minus does not raise TypeError

---
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..298fa8d 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From abf3dbdef84afc2b68fd4b010ddceae21e5c6ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 03/15] fix: record the coders of datasets loaded from JSON and
 TSV files so that agreement can be computed

---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..d5b5787 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -84,6 +84,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..3eafd53 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -45,6 +45,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     if j is 0:
                         coder = str(col)
                         dataset[item][coder] = list()
+                        dataset.coders.add(coder)
                     else:
                         dataset[item][coder].append(int(col))
                 dataset[item][coder] = tuple(dataset[item][coder])
-- 
2.43.0


From 5718852e1d03dc0037a5b3071f2d6ce99a65ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 04/15] fix: WindowDiff is 0 when the text is too short for any
 window instead of dividing by zero

---
 segeval/window/windowdiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..1625bd6 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -101,7 +101,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
                                              lamprier_et_al_2007_fix)[0]
     # Slide window over and sum the number of varying windows
     sum_differences = 0
-    measurements = len(units_ref_hyp) - window_size
+    measurements = max(len(units_ref_hyp) - window_size, 0)
     for i in range(0, measurements):
         window = units_ref_hyp[i: i + window_size + 1]
         ref_boundaries = 0
@@ -122,10 +122,11 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-    denominator = n - window_size
+    denominator = max(n - window_size, 0)
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if denominator > 0 \
+        else Decimal(0)
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From 885977d0062b7543dc22b46389c283e312e6a1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 05/15] fix: break the import cycle that made segeval.summarize
 fail when it is accessed first

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..4fe260b 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From e0ec4e00d1e1201812048703411de49f33986261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 06/15] fix: load every data file of a folder even when two
 differ only in their extension

---
 segeval/data/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..e2c05ce 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -158,7 +158,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     fnc_load = FILETYPES[filetype][FNC]
     datafile_found = False
     # List of entries
-    files = dict()
+    files = list()
     dirs = dict()
     # For each filesystem item
     for name in os.listdir(containing_dir):
@@ -168,14 +168,14 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
             dirs[name] = path
         # Found a file
         else:
-            name, ext = os.path.splitext(name)
+            ext = os.path.splitext(name)[1]
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files.append(path)
                 datafile_found = True
     # If a data file was found
     if datafile_found:
         # If TSV files were found, load
-        for name, filepath in files.items():
+        for filepath in files:
             other = fnc_load(filepath)
             dataset.__iadd__(other, prepend_item=prepend_item)
     # If only dirs were found, recurse
-- 
2.43.0


From 1064ab7920ff9da8abfb23c641e2c202cb37dc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 07/15] fix: Fleiss Pi of datasets in which a pair of coders
 placed no boundaries in an item

---
 segeval/agreement/pi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..a44182a 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -32,7 +32,8 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     for boundaries_info in coders_boundaries.values():
         for item in boundaries_info:
             boundaries, total_boundaries = item
-            p_e_seg = Decimal(boundaries) / total_boundaries
+            p_e_seg = Decimal(boundaries) / total_boundaries \
+                if total_boundaries > 0 else Decimal(0)
             p_e_segs.append(p_e_seg)
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
-- 
2.43.0


From 4cf9739dd360484e8cb3877bcaa209cc44be0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 08/15] fix: skip blank lines in TSV files instead of raising
 KeyError

---
 segeval/data/tsv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 3eafd53..9fee8b8 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -37,8 +37,8 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
             if i is 0:
                 for col_name in row[1:]:
                     header.append(col_name)
-            # Read data
-            else:
+            # Read data, skipping blank lines
+            elif len(row) > 0:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From e330a91e00016b7318b735a0f72be75632ff390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:01 +0000
Subject: [PATCH 09/15] fix: Segmentation Similarity counts potential
 boundaries once per boundary type, not per type squared

---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index 298fa8d..8dbe6ee 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From afcd50f9be161a06cc25c2b24a2f76e2a010a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 10/15] fix: compare one-unit texts, whose NLTK and boundary
 strings are empty, instead of rejecting them

---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 4fe260b..df6717a 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -64,7 +64,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         # Compute pairwise values over all coders in a dataset
         metric_kwargs['boundary_format'] = dataset.boundary_format
         return compute_pairwise_values(fnc_metric, dataset, **metric_kwargs)
-    elif hypothesis and reference:
+    elif hypothesis is not None and reference is not None:
         # Compute values between hypotheses (i.e, automatic) and reference
         # (i.e., manual) coder segmentations
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
-- 
2.43.0


From 575d6a3800239df5bf07a885d09a7169e00a5ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 11/15] fix: precision and recall of classes whose diagonal
 cell is a Decimal zero are 0 instead of dividing 0 by 0

---
 segeval/ml/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..878578a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
-- 
2.43.0


From 586c6f88f928070e5a26a1f29db02b8ca0a39903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 12/15] fix: adding datasets copies codings so that changing
 the sum does not change an operand

---
 segeval/data/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index e2c05ce..0595c25 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -73,7 +73,7 @@ class Dataset(defaultdict):
             for coder, item_masses in codings.items():
                 self.coders.add(coder)
                 if coder not in self[item]:
-                    self[item][coder] = item_masses
+                    self[item][coder] = copy.deepcopy(item_masses)
                 else:
                     raise DataIOError('Duplicate coders of same name \
 %(coder)s found for item %(item)s' % {'coder': coder, 'item': item})
-- 
2.43.0


From 473cf02e6492139a842b27f5f9ae9afc65ffc75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:34 +0000
Subject: [PATCH 13/15] fix: close JSON files after reading so that large
 folders do not exhaust file handles

---
 segeval/data/jsonutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index d5b5787..12986fe 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -66,6 +66,8 @@ def input_linear_mass_json(filepath):
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
+    finally:
+        json_file.close()
     # Check type
     if Field.segmentation_type in data:
         if data[Field.segmentation_type] != SegmentationType.linear:
-- 
2.43.0


From b6379a6912c45fed60d437a04550fcf1cf65711f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 14/15] fix: WindowDiff padding is separated from texts
 labelled 0 and works for lists of positions

---
 segeval/window/windowdiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 1625bd6..807dff8 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -32,9 +32,10 @@ def __create_paired_window__(hypothesis, reference, window_size,
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
-        phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        # No unit is labelled None, so a boundary always separates text and padding
+        phantom = tuple([None] * phantom_size)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From 0ae6914902fefd66d3eb4b7cee22cd34d54f925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:08 +0000
Subject: [PATCH 15/15] fix: edit-based metrics scored an empty text against a
 single unit

A boundary string has one slot fewer than there are units, but an empty
text has none either, so the two lengths were mistaken for equal.
---
 segeval/similarity/__init__.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/segeval/similarity/__init__.py b/segeval/similarity/__init__.py
index 08d019f..a14dc18 100644
--- a/segeval/similarity/__init__.py
+++ b/segeval/similarity/__init__.py
@@ -28,20 +28,24 @@ def __boundary_statistics__(
     Compute boundary similarity applying the weighting functions specified.
     '''
 
-    # Convert from NLTK types
+    # Convert from NLTK types and positions
     if boundary_format == BoundaryFormat.nltk:
         segs_a = convert_nltk_to_masses(segs_a)
         segs_b = convert_nltk_to_masses(segs_b)
         boundary_format = BoundaryFormat.mass
+    elif boundary_format == BoundaryFormat.position:
+        segs_a = convert_positions_to_masses(segs_a)
+        segs_b = convert_positions_to_masses(segs_b)
+        boundary_format = BoundaryFormat.mass
     # Check format
     if boundary_format == BoundaryFormat.sets:
         pass  # Correct boundary format
     elif boundary_format == BoundaryFormat.mass:
-        segs_a = boundary_string_from_masses(segs_a)
-        segs_b = boundary_string_from_masses(segs_b)
-    elif boundary_format == BoundaryFormat.position:
-        segs_a = convert_positions_to_masses(segs_a)
-        segs_b = convert_positions_to_masses(segs_b)
+        # Boundary strings cannot tell an empty text from one of a single unit
+        if sum(segs_a) != sum(segs_b):
+            raise SegmentationMetricError(
+                'Segmentations differ in length ({0} != {1})'.format(
+                    sum(segs_a), sum(segs_b)))
         segs_a = boundary_string_from_masses(segs_a)
         segs_b = boundary_string_from_masses(segs_b)
     else:
-- 
2.43.0

