From 928ca008bc669a0d17722791fde33e4558ff6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 01/20] fix: compare segmentations that contain no boundaries

max()/min() of an empty set of boundary types raised ValueError.
---
 segeval/similarity/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/__init__.py b/segeval/similarity/__init__.py
index 220811b..17a833e 100644
--- a/segeval/similarity/__init__.py
+++ b/segeval/similarity/__init__.py
@@ -63,7 +63,7 @@ def __boundary_statistics__(
     count_additions = fnc_weight_a(additions)
     count_substitutions = fnc_weight_s(substitutions,
                                        max(boundary_types),
-                                       min(boundary_types))
+                                       min(boundary_types)) if boundary_types else 0
     count_transpositions = fnc_weight_t(transpositions, n_t)
     count_edits = count_additions + count_substitutions + count_transpositions
     # Compute
-- 
2.43.0


From 9ef1fa19bf6ad3a7aa497a5481d59c1f3da46d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 02/20] fix: keep similarity and agreement scores in decimal
 arithmetic

Unweighted weighting functions produced binary floats, which one_minus and
summarize() cannot combine with Decimal.
---
 segeval/agreement/__init__.py      | 3 ++-
 segeval/similarity/boundary.py     | 2 +-
 segeval/similarity/segmentation.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index e120173..bedb3b6 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -4,6 +4,7 @@ Inter-coder agreement statistics.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import, division
+from decimal import Decimal
 from segeval.data import get_coders
 from segeval.similarity import SIMILARITY_METRIC_DEFAULTS
 from segeval.similarity.boundary import boundary_similarity
@@ -172,7 +173,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return sum(all_numerators) / sum(all_denominators)
+        return Decimal(sum(all_numerators)) / sum(all_denominators)
 
 
 def actual_agreement_linear(dataset, **kwargs):
diff --git a/segeval/similarity/boundary.py b/segeval/similarity/boundary.py
index 9d7b4ef..207eee7 100644
--- a/segeval/similarity/boundary.py
+++ b/segeval/similarity/boundary.py
@@ -29,7 +29,7 @@ def __boundary_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator, additions, substitutions, transpositions
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index b68a23a..298fa8d 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -30,7 +30,7 @@ def __segmentation_similarity__(*args, **kwargs):
     if return_parts:
         return numerator, denominator
     else:
-        value = numerator / denominator if denominator > 0 else 1
+        value = Decimal(numerator) / denominator if denominator > 0 else 1
         if one_minus:
             return Decimal('1') - value
         else:
-- 
2.43.0


From ec9e07e0de8836744b1017d05cbc36fa986a2e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 03/20] fix: WindowDiff of segmentations no longer than the
 window

Division by zero (or a negative number of windows); Pk already returns 0.
---
 segeval/window/windowdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 35f8195..a621266 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -101,7 +101,7 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
                                              lamprier_et_al_2007_fix)[0]
     # Slide window over and sum the number of varying windows
     sum_differences = 0
-    measurements = len(units_ref_hyp) - window_size
+    measurements = max(len(units_ref_hyp) - window_size, 0)
     for i in range(0, measurements):
         window = units_ref_hyp[i: i + window_size + 1]
         ref_boundaries = 0
@@ -122,10 +122,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-    denominator = n - window_size
+    denominator = max(n - window_size, 0)
     if lamprier_et_al_2007_fix:
         denominator = measurements + 1
-    win_diff = Decimal(sum_differences) / denominator
+    win_diff = Decimal(sum_differences) / denominator if denominator > 0 else 0
     # Check normalization
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
-- 
2.43.0


From efd4e93889eaaff7c88b5d6c6cea29b4b2b355af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 04/20] fix: WindowDiff returns its parts when one_minus is
 also given

---
 segeval/window/windowdiff.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index a621266..82ec0f5 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -130,11 +130,10 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
     assert denominator == measurements or lamprier_et_al_2007_fix
     # Check value
     assert win_diff <= 1
-    if not one_minus:
-        if return_parts:
-            return sum_differences, denominator
-        else:
-            return win_diff
+    if return_parts:
+        return sum_differences, denominator
+    elif not one_minus:
+        return win_diff
     else:
         return Decimal('1.0') - win_diff
 
-- 
2.43.0


From 33a800f7448b9eb5c1d58a1337dee03299b089aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 05/20] fix: apply the Lamprier et al. fix to position lists

and treat any false value of the option as off
---
 segeval/window/windowdiff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index 82ec0f5..cc30708 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -27,14 +27,14 @@ def __create_paired_window__(hypothesis, reference, window_size,
     window.
     '''
     phantom_size = 0
-    if lamprier_et_al_2007_fix is False:
+    if not lamprier_et_al_2007_fix:
         units_ref_hyp = zip(reference, hypothesis)
     else:
         phantom_size = window_size
         phantom_size = 1 if phantom_size <= 0 else phantom_size
         phantom = tuple([0] * phantom_size)
-        units_ref_hyp = zip(phantom + reference + phantom,
-                            phantom + hypothesis + phantom)
+        units_ref_hyp = zip(phantom + tuple(reference) + phantom,
+                            phantom + tuple(hypothesis) + phantom)
     return list(units_ref_hyp), phantom_size
 
 
-- 
2.43.0


From ad07158b0f7490f41dbb2431b078061318249468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 06/20] fix: compare values by equality instead of identity

Labels, counts and options that are equal but distinct objects were treated
as different.
---
 segeval/data/tsv.py                             | 4 ++--
 segeval/ml/__init__.py                          | 8 ++++----
 segeval/similarity/distance/multipleboundary.py | 4 ++--
 segeval/util/__init__.py                        | 2 +-
 segeval/window/pk.py                            | 6 +++---
 segeval/window/windowdiff.py                    | 8 ++++----
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 5ebdcaf..8bb0d18 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -34,7 +34,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
         reader = csv.reader(csv_file, delimiter=delimiter)
         for i, row in enumerate(reader):
             # Read annotators from header
-            if i is 0:
+            if i == 0:
                 for col_name in row[1:]:
                     header.append(col_name)
             # Read data
@@ -42,7 +42,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-                    if j is 0:
+                    if j == 0:
                         coder = str(col)
                         dataset[item][coder] = list()
                     else:
diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index a1cb2f7..267179a 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -20,7 +20,7 @@ def __value_micro_macro__(fnc, arguments, classification=None,
 
     def __compute__(fnc, classes, arguments, classification, version):
         if classification is None:
-            if version is Average.micro:
+            if version == Average.micro:
                 # Micro-average
                 numerator, denominator = 0, 0
                 for classification in classes:
@@ -33,7 +33,7 @@ def __value_micro_macro__(fnc, arguments, classification=None,
                     return 0
                 else:
                     return Decimal(numerator) / denominator
-            elif version is Average.macro:
+            elif version == Average.macro:
                 # Macro-average
                 values = list()
                 for classification in classes:
@@ -70,7 +70,7 @@ def __precision__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
@@ -86,7 +86,7 @@ def __recall__(matrix, classification, return_parts=False):
     if return_parts:
         return numerator, denominator
     else:
-        if numerator is 0:
+        if numerator == 0:
             return Decimal(0)
         else:
             return Decimal(numerator) / Decimal(denominator)
diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index 2ed4ba7..a165f96 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -69,7 +69,7 @@ def __additions_substitutions_sets__(d, a, b):
     # Add from b
     for addition in b - set(substituted):
         added.append(Addition(addition, 'b'))
-    assert len(added) is len(additions)
+    assert len(added) == len(additions)
     return added, set([Substitution(a_i, b_i) for a_i, b_i in set(substitutions)])
 
 
@@ -103,7 +103,7 @@ def __overlaps_existing__(i, j, d, options_transp):
         if position in options_transp:
             for t in options_transp[position]:
                 # If the transposition 't' is of the boundary type 'd'
-                if t[2] is d:
+                if t[2] == d:
                     return True
     return check_position(i) or check_position(j)
 
diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 12efe7d..1330599 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -70,7 +70,7 @@ def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
         if isinstance(hypothesis, Dataset) and isinstance(reference, Dataset):
             # Compare pairwise values between coders paired from two datasets
             metric_kwargs['boundary_format'] = hypothesis.boundary_format
-            if hypothesis.boundary_format is not reference.boundary_format:
+            if hypothesis.boundary_format != reference.boundary_format:
                 raise SegmentationMetricError(
                     'Datasets contain differing boundary formats; {0} != {1}'
                     .format(hypothesis.boundary_format, reference.boundary_format))
diff --git a/segeval/window/pk.py b/segeval/window/pk.py
index d5d0ca5..474aefc 100644
--- a/segeval/window/pk.py
+++ b/segeval/window/pk.py
@@ -46,10 +46,10 @@ def __pk__(hypothesis, reference, window_size, one_minus, boundary_format,
         window_ref = reference[i:i + window_size + 1]
         window_hyp = hypothesis[i:i + window_size + 1]
         # Probe agreement
-        agree_ref = window_ref[0] is window_ref[-1]
-        agree_hyp = window_hyp[0] is window_hyp[-1]
+        agree_ref = window_ref[0] == window_ref[-1]
+        agree_hyp = window_hyp[0] == window_hyp[-1]
         # If the windows agreements agree
-        if agree_ref is not agree_hyp:
+        if agree_ref != agree_hyp:
             sum_differences += 1
         measurements += 1
     # Perform final division
diff --git a/segeval/window/windowdiff.py b/segeval/window/windowdiff.py
index cc30708..18a060b 100644
--- a/segeval/window/windowdiff.py
+++ b/segeval/window/windowdiff.py
@@ -107,18 +107,18 @@ length (%(ref)i is not %(hyp)i).' % {'ref': len(reference),
         ref_boundaries = 0
         hyp_boundaries = 0
         # Check that the number of loops is correct
-        assert len(window) is window_size + 1
+        assert len(window) == window_size + 1
         # For pair in window
         for j in range(0, len(window) - 1):
             ref_part, hyp_part = zip(*window[j:j + 2])
             # Boundary exists in the reference segmentation
-            if ref_part[0] is not ref_part[1]:
+            if ref_part[0] != ref_part[1]:
                 ref_boundaries += 1
             # Boundary exists in the hypothesis segmentation
-            if hyp_part[0] is not hyp_part[1]:
+            if hyp_part[0] != hyp_part[1]:
                 hyp_boundaries += 1
         # If the number of boundaries per segmentation in the window differs
-        if ref_boundaries is not hyp_boundaries:
+        if ref_boundaries != hyp_boundaries:
             sum_differences += 1
     # Perform final division
     n = sum(convert_positions_to_masses(reference))
-- 
2.43.0


From 43669c7cb5d7ba4d0891d1bb0c3cf7785ac412f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 07/20] fix: allow segeval.compute to be imported first

segeval.util and segeval.compute imported each other.
---
 segeval/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/util/__init__.py b/segeval/util/__init__.py
index 1330599..7b46be0 100644
--- a/segeval/util/__init__.py
+++ b/segeval/util/__init__.py
@@ -4,7 +4,6 @@ Utility functions and classes for the package.
 .. moduleauthor:: Chris Fournier <chris.m.fournier@gmail.com>
 '''
 from __future__ import absolute_import
-from segeval.compute import compute_pairwise_values
 
 
 class SegmentationMetricError(Exception):
@@ -30,6 +29,7 @@ class SegmentationMetricError(Exception):
 
 def __fnc_metric__(fnc_metric, args, kwargs, kw_defaults):
 
+    from segeval.compute import compute_pairwise_values
     from segeval.data import Dataset
     # Create default keyword arguments
     metric_kwargs = dict(kw_defaults)
-- 
2.43.0


From b6400fe24f4abaf960d65b0fac135f56dc0c743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 08/20] fix: close JSON files after reading them

---
 segeval/data/jsonutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 3d79b0c..c7dd0de 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -62,7 +62,8 @@ def input_linear_mass_json(filepath):
     json_file = open(filepath, 'rU')
     # Read in file
     try:
-        data = json.load(json_file)
+        with json_file:
+            data = json.load(json_file)
     except Exception as exception:
         raise DataIOError(
             'Error occurred processing file: ' + filepath, exception)
-- 
2.43.0


From feb82bb386d2b71f18e977c76fc88387bb25345e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 09/20] fix: properties cannot replace the items written to
 JSON

---
 segeval/data/jsonutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index c7dd0de..513ff40 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -42,9 +42,9 @@ def output_linear_mass_json(filepath, dataset):
     :param filepath: Path to the mass file containing segment position codings.
     :type filepath: :func:`str`
     '''
-    data = {Field.segmentation_type: SegmentationType.linear}
+    data = dict(dataset.properties)
+    data[Field.segmentation_type] = SegmentationType.linear
     data[Field.items] = dataset
-    data.update(dataset.properties)
     __write_json__(filepath, data)
 
 
-- 
2.43.0


From e48339476010741f9014cef2591b8b0521989906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 10/20] fix: register the coders of datasets read from files

Agreement coefficients of a loaded dataset saw no coders.
---
 segeval/data/jsonutils.py | 1 +
 segeval/data/tsv.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/segeval/data/jsonutils.py b/segeval/data/jsonutils.py
index 513ff40..e48b491 100644
--- a/segeval/data/jsonutils.py
+++ b/segeval/data/jsonutils.py
@@ -85,6 +85,7 @@ def input_linear_mass_json(filepath):
             dataset[item] = dict()
             for coder, masses in coder_masses.items():
                 dataset[item][coder] = tuple(masses)
+                dataset.coders.add(coder)
         # Remove from properties
         del dataset.properties[Field.items]
     else:
diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 8bb0d18..f682036 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -44,6 +44,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j == 0:
                         coder = str(col)
+                        dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
                         dataset[item][coder].append(int(col))
-- 
2.43.0


From 6a3f7cb025d559e503a2311e7d617648662a4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 11/20] fix: ignore blank lines in TSV files

---
 segeval/data/tsv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index f682036..4e1d7db 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -38,7 +38,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                 for col_name in row[1:]:
                     header.append(col_name)
             # Read data
-            else:
+            elif row:
                 coder = None
                 for j, col in enumerate(row):
                     # Skip the first col
-- 
2.43.0


From f74f3d133692134fafc2bcd0748588a870d438f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 12/20] fix: count potential boundaries once per type in
 segmentation similarity

statistics['pbs'] already includes the number of boundary types.
---
 segeval/similarity/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segeval/similarity/segmentation.py b/segeval/similarity/segmentation.py
index 298fa8d..8dbe6ee 100644
--- a/segeval/similarity/segmentation.py
+++ b/segeval/similarity/segmentation.py
@@ -23,7 +23,7 @@ def __segmentation_similarity__(*args, **kwargs):
     # Compute
     statistics = __boundary_statistics__(*args, **metric_kwargs)
     # Process
-    pbs = statistics['pbs'] * len(statistics['boundary_types'])
+    pbs = statistics['pbs']
     # Fraction
     denominator = pbs
     numerator = pbs - statistics['count_edits']
-- 
2.43.0


From cb11fb5107b212812ebc513f7868e28befc468a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:38 +0000
Subject: [PATCH 13/20] fix: precision and recall leave the confusion matrix
 unchanged

---
 segeval/ml/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index 267179a..d938582 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -60,13 +60,20 @@ def __value_micro_macro__(fnc, arguments, classification=None,
         return values
 
 
+def __count__(matrix, predicted, actual):
+    '''
+    Retrieve a count without adding entries to the confusion matrix.
+    '''
+    return matrix.get(predicted, {}).get(actual, 0)
+
+
 def __precision__(matrix, classification, return_parts=False):
 
     predicted = classification
     denominator = 0
     for actual in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
@@ -81,8 +88,8 @@ def __recall__(matrix, classification, return_parts=False):
     actual = classification
     denominator = 0
     for predicted in matrix.classes():
-        denominator += matrix[predicted][actual]
-    numerator = matrix[classification][classification]
+        denominator += __count__(matrix, predicted, actual)
+    numerator = __count__(matrix, classification, classification)
     if return_parts:
         return numerator, denominator
     else:
-- 
2.43.0


From b0911f399246acf9adaf21c0f9b7209810a292ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:43 +0000
Subject: [PATCH 14/20] fix: confusion matrix classes are those it currently
 holds

---
 segeval/ml/__init__.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/segeval/ml/__init__.py b/segeval/ml/__init__.py
index d938582..f1eaecd 100644
--- a/segeval/ml/__init__.py
+++ b/segeval/ml/__init__.py
@@ -197,18 +197,13 @@ def fmeasure(matrix, classification=None, beta=Decimal('1.0'),
 class _InnerConfusionMatrix(defaultdict):
 
     '''
-    Inner dict of the confusion matrix; used to determine when the classes list
-    is dirty.
+    Inner dict of the confusion matrix.
     '''
 
     def __init__(self, parent):
         self.__parent__ = parent
         defaultdict.__init__(self, int)
 
-    def __setitem__(self, key, value):
-        self.__parent__.__dirty_classes__ = True
-        defaultdict.__setitem__(self, key, value)
-
 
 class ConfusionMatrix(dict):
 
@@ -216,9 +211,6 @@ class ConfusionMatrix(dict):
     A :func:`dict`-like representation of a confusion matrix offering some automation.
     To access/store values, use: ``matrix[predicted][actual]``.
     '''
-    __classes__ = set()
-    __dirty_classes__ = False
-
     def __setitem__(self, key, value):
         raise AttributeError('no such method')
 
@@ -249,11 +241,9 @@ class ConfusionMatrix(dict):
         '''
         Retrieve the set of all classes.
         '''
-        if self.__dirty_classes__:
-            self.__classes__ = set()
-            for predicted, values in self.items():
-                self.__classes__.add(predicted)
-                for actual in values.keys():
-                    self.__classes__.add(actual)
-            self.__dirty_classes__ = False
-        return self.__classes__
+        classes = set()
+        for predicted, values in self.items():
+            classes.add(predicted)
+            for actual in values.keys():
+                classes.add(actual)
+        return classes
-- 
2.43.0


From ff81e6badf8328c0f4611cccd9180fc56d769579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:09 +0000
Subject: [PATCH 15/20] fix: agreement of coders who place no boundaries

---
 segeval/agreement/__init__.py | 22 +++++++++++++++++++++-
 segeval/agreement/kappa.py    | 11 +++++++----
 segeval/agreement/pi.py       |  8 +++++---
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/segeval/agreement/__init__.py b/segeval/agreement/__init__.py
index bedb3b6..b09c4c8 100644
--- a/segeval/agreement/__init__.py
+++ b/segeval/agreement/__init__.py
@@ -78,6 +78,26 @@ def __boundaries__(segmentation, **kwargs):
     return sum([len(position) for position in boundary_string])
 
 
+def __actual_agreement__(numerators, denominators):
+    '''
+    Actual agreement; complete where there are no boundaries to disagree upon.
+    '''
+    denominator = sum(denominators)
+    if denominator == 0:
+        return Decimal(1)
+    return Decimal(sum(numerators)) / denominator
+
+
+def __boundary_proportion__(boundaries, potential_boundaries):
+    '''
+    Proportion of the potential boundaries that are boundaries; 0 if there are
+    neither.
+    '''
+    if potential_boundaries == 0:
+        return Decimal(0)
+    return Decimal(boundaries) / potential_boundaries
+
+
 def __actual_agreement_linear__(dataset, **kwargs):
     '''
     Calculate actual (i.e., observed or :math:`\\text{A}_a`), segmentation
@@ -173,7 +193,7 @@ def __actual_agreement_linear__(dataset, **kwargs):
     if return_parts:
         return all_numerators, all_denominators, all_pbs, coders_boundaries
     else:
-        return Decimal(sum(all_numerators)) / sum(all_denominators)
+        return __actual_agreement__(all_numerators, all_denominators)
 
 
 def actual_agreement_linear(dataset, **kwargs):
diff --git a/segeval/agreement/kappa.py b/segeval/agreement/kappa.py
index fd1f858..ebb2fc1 100644
--- a/segeval/agreement/kappa.py
+++ b/segeval/agreement/kappa.py
@@ -5,7 +5,9 @@ Inter-coder agreement statistic Fleiss' Kappa.
 '''
 from __future__ import absolute_import, division
 from decimal import Decimal
-from segeval.agreement import __fnc_metric__, __actual_agreement_linear__
+from segeval.agreement import (__fnc_metric__, __actual_agreement__,
+                               __actual_agreement_linear__,
+                               __boundary_proportion__)
 
 
 def __fleiss_kappa_linear__(dataset, **kwargs):
@@ -29,7 +31,7 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = __actual_agreement__(all_numerators, all_denominators)
     # Calculate Ae
     coders = list(coders_boundaries.keys())
     P_segs = list()
@@ -43,8 +45,9 @@ def __fleiss_kappa_linear__(dataset, **kwargs):
                                coders_boundaries[coders[n]])
             total_boundaries_n = sum(info[1] for info in
                                      coders_boundaries[coders[n]])
-            P_segs.append((Decimal(boundaries_m) / total_boundaries_m) *
-                          (Decimal(boundaries_n) / total_boundaries_n))
+            P_segs.append(
+                __boundary_proportion__(boundaries_m, total_boundaries_m) *
+                __boundary_proportion__(boundaries_n, total_boundaries_n))
     P_seg = Decimal(sum(P_segs)) / len(P_segs)
     A_e = P_seg
     # Calculate pi
diff --git a/segeval/agreement/pi.py b/segeval/agreement/pi.py
index 791b31b..6fbb533 100644
--- a/segeval/agreement/pi.py
+++ b/segeval/agreement/pi.py
@@ -5,7 +5,9 @@ Inter-coder agreement statistic Fleiss' Pi.
 '''
 from __future__ import absolute_import, division
 from decimal import Decimal
-from segeval.agreement import __fnc_metric__, __actual_agreement_linear__
+from segeval.agreement import (__fnc_metric__, __actual_agreement__,
+                               __actual_agreement_linear__,
+                               __boundary_proportion__)
 
 
 def __fleiss_pi_linear__(dataset, **kwargs):
@@ -26,13 +28,13 @@ def __fleiss_pi_linear__(dataset, **kwargs):
     all_numerators, all_denominators, _, coders_boundaries = \
         __actual_agreement_linear__(dataset, **metric_kwargs)
     # Calculate Aa
-    A_a = Decimal(sum(all_numerators)) / sum(all_denominators)
+    A_a = __actual_agreement__(all_numerators, all_denominators)
     # Calculate Ae
     p_e_segs = list()
     for boundaries_info in coders_boundaries.values():
         for item in boundaries_info:
             boundaries, total_boundaries = item
-            p_e_seg = Decimal(boundaries) / total_boundaries
+            p_e_seg = __boundary_proportion__(boundaries, total_boundaries)
             p_e_segs.append(p_e_seg)
     # Calculate P_e_seg
     P_e_seg = Decimal(sum(p_e_segs)) / len(p_e_segs)
-- 
2.43.0


From 82a2281f68160fe1c51d75aadead584b80123bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:34 +0000
Subject: [PATCH 16/20] fix: merging into a dataset leaves the data it was
 created from unchanged

---
 segeval/data/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 65b8ec1..43b2ea7 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -40,7 +40,8 @@ class Dataset(defaultdict):
         self.boundary_format = boundary_format
         # Masses
         if item_coder_data is not None and item_coder_data is not dict:
-            defaultdict.update(self, item_coder_data)
+            for item, codings in item_coder_data.items():
+                self[item] = dict(codings)
         # Properties
         if properties is not None:
             self.properties.update(properties)
-- 
2.43.0


From 00f01957ee9c6b6f84c5fd8441dec476cf10e423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:39 +0000
Subject: [PATCH 17/20] fix: load files whose names differ only by extension

---
 segeval/data/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segeval/data/__init__.py b/segeval/data/__init__.py
index 43b2ea7..f21defb 100644
--- a/segeval/data/__init__.py
+++ b/segeval/data/__init__.py
@@ -159,7 +159,7 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
     fnc_load = FILETYPES[filetype][FNC]
     datafile_found = False
     # List of entries
-    files = dict()
+    files = list()
     dirs = dict()
     # For each filesystem item
     for name in os.listdir(containing_dir):
@@ -169,14 +169,14 @@ def load_nested_folders_dict(containing_dir, filetype, dataset=None,
             dirs[name] = path
         # Found a file
         else:
-            name, ext = os.path.splitext(name)
+            ext = os.path.splitext(name)[1]
             if len(ext) > 0 and ext.lower() in allowable_extensions:
-                files[name] = path
+                files.append(path)
                 datafile_found = True
     # If a data file was found
     if datafile_found:
         # If TSV files were found, load
-        for name, filepath in files.items():
+        for filepath in files:
             other = fnc_load(filepath)
             dataset.__iadd__(other, prepend_item=prepend_item)
     # If only dirs were found, recurse
-- 
2.43.0


From c68650fc03e11fd59e373881feb4d409d9fa4f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:43 +0000
Subject: [PATCH 18/20] fix: refuse TSV files that contain a coder twice

---
 segeval/data/tsv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segeval/data/tsv.py b/segeval/data/tsv.py
index 4e1d7db..f32fa3d 100644
--- a/segeval/data/tsv.py
+++ b/segeval/data/tsv.py
@@ -22,7 +22,7 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
     :type delimiter: str
     '''
 
-    from segeval.data import Dataset, name_from_filepath
+    from segeval.data import Dataset, DataIOError, name_from_filepath
     # List version of file
     header = []
     dataset = Dataset()
@@ -44,6 +44,10 @@ def input_linear_mass_tsv(filepath, delimiter=DEFAULT_DELIMITER):
                     # Skip the first col
                     if j == 0:
                         coder = str(col)
+                        if coder in dataset[item]:
+                            raise DataIOError(
+                                'Duplicate coder {0} found in file: {1}'
+                                .format(coder, filepath))
                         dataset.coders.add(coder)
                         dataset[item][coder] = list()
                     else:
-- 
2.43.0


From 52996bea22ad6e1e89a020cd0163841bd73662a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:24 +0000
Subject: [PATCH 19/20] fix: window size of datasets of position labels

---
 segeval/window/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/segeval/window/__init__.py b/segeval/window/__init__.py
index be26b63..11831ef 100644
--- a/segeval/window/__init__.py
+++ b/segeval/window/__init__.py
@@ -41,12 +41,12 @@ def __compute_window_size__(reference, fnc_round, boundary_format):
             for cur_inner_coder_masses in inner_coder_masses.values():
                 __list_coder_masses__(cur_inner_coder_masses)
         elif hasattr(inner_coder_masses, '__iter__') and not isinstance(inner_coder_masses, str):
+            if boundary_format == BoundaryFormat.position:
+                inner_coder_masses = convert_positions_to_masses(inner_coder_masses)
             all_masses.extend(inner_coder_masses)
         else:
             raise SegmentationMetricError('Expected either a dict-like \
 collection of segmentations or a segmentation as a list-like object')
-    if boundary_format == BoundaryFormat.position:
-        reference = convert_positions_to_masses(reference)
     # Recurse and list all masses
     __list_coder_masses__(reference)
     # Convert to floats
@@ -60,6 +60,8 @@ collection of segmentations or a segmentation as a list-like object')
 def compute_window_size(reference, **kwargs):
     metric_kwargs = dict(WINDOW_METRIC_DEFAULTS)
     metric_kwargs.update(kwargs)
+    if hasattr(reference, 'boundary_format'):
+        metric_kwargs['boundary_format'] = reference.boundary_format
     del metric_kwargs['one_minus']
     del metric_kwargs['permuted']
     del metric_kwargs['window_size']
-- 
2.43.0


From 0531908fc4f3cccecf5b71e87f22f9108ba3d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:43 +0000
Subject: [PATCH 20/20] fix: refuse boundary strings that differ in length

---
 segeval/similarity/distance/multipleboundary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segeval/similarity/distance/multipleboundary.py b/segeval/similarity/distance/multipleboundary.py
index a165f96..936a609 100644
--- a/segeval/similarity/distance/multipleboundary.py
+++ b/segeval/similarity/distance/multipleboundary.py
@@ -6,6 +6,7 @@ Multiple-boundary edit distance.
 from __future__ import absolute_import, division
 from itertools import permutations
 from collections import namedtuple
+from segeval.util import SegmentationMetricError
 
 
 Addition = namedtuple('Addition', 'type side')  # For side; a = from a, b = from b
@@ -221,5 +222,9 @@ def boundary_edit_distance(boundary_string_a, boundary_string_b, n_t=2):
     :type n_t:  int
     '''
 
+    if len(boundary_string_a) != len(boundary_string_b):
+        raise SegmentationMetricError(
+            'Boundary strings differ in length ({0} != {1})'.format(
+                len(boundary_string_a), len(boundary_string_b)))
     n_t = range(2, n_t + 1)
     return __boundary_edit_distance__(boundary_string_a, boundary_string_b, n_t)
-- 
2.43.0

