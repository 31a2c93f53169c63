From 3f7267f16689584e2c8a8dcfb7bb6f422b967979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 1/6] fix: only evaluate a threshold on the first row with a
 feature value

previous_feature_val was never updated, so with repeated feature values the
loss was also computed in the middle of a run of equal values, for a split
that partitioning can not produce
---
 .../threshold_finders/threshold_finder_variance.rs          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
index 2c256c9..2a1c315 100644
--- a/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
+++ b/multi-target-decision-tree/src/split_finders/threshold_finders/threshold_finder_variance.rs
@@ -46,7 +46,7 @@ pub(super) fn determine_best_threshold(
     };
 
     let sorted_feature_data = get_sorted_feature_tuple_vector(feature_column);
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -76,6 +76,7 @@ pub(super) fn determine_best_threshold(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
@@ -123,7 +124,7 @@ pub(super) fn determine_best_threshold_new(
     };
 
     let sorted_feature_data = feature_column;
-    let previous_feature_val = sorted_feature_data[0].0;
+    let mut previous_feature_val = sorted_feature_data[0].0;
     sorted_feature_data.iter().for_each(|tuple| {
         let feature_value = tuple.0 as f64;
 
@@ -153,6 +154,7 @@ pub(super) fn determine_best_threshold_new(
                 best_result_container.loss = split_variance_sum;
                 best_result_container.threshold_value = feature_value;
             }
+            previous_feature_val = feature_value;
         }
 
         let real_row_index = tuple.1;
-- 
2.43.0


From 83e58b52356f0426d9d25c4bedd499fd6d85cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 2/6] fix: new_partition puts no row in the true part when
 every value is below the threshold

---
 common/src/data_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/data_processor.rs b/common/src/data_processor.rs
index abe2844..1ff4e76 100644
--- a/common/src/data_processor.rs
+++ b/common/src/data_processor.rs
@@ -68,7 +68,7 @@ fn collect_indices_for_partitioning(
     let mut false_indices = vec![0; all_labels_size];
     let sorted_feature_column_split_on = &dataset.sorted_feature_columns[split_column];
 
-    let mut first_encounter_index = 0;
+    let mut first_encounter_index = sorted_feature_column_split_on.len();
     for i in 0..sorted_feature_column_split_on.len() {
         let feature_value_index_pair = sorted_feature_column_split_on[i];
         let value = feature_value_index_pair.0;
-- 
2.43.0


From ff0b4ba939b2dfd35eb5f38f624b6f7e70c72fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 3/6] fix: softmax of large scores no longer overflows to NaN
 residuals

---
 .../common_multi_class_boosting_functions.rs           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
index a0306c4..8222fbf 100644
--- a/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
+++ b/multi-target-grad-boost/src/ensembles/MultiClassBoosting/common_multi_class_boosting_functions.rs
@@ -59,8 +59,14 @@ pub mod executor_helper_functions {
 
     //current label ~ current prediction
     fn calculate_probabilities_of_predictions(current_label: &Vec<f64>) -> Vec<f64> {
-        let exponential_of_current_data_label: Vec<f64> =
-            current_label.iter().map(|element| element.exp()).collect();
+        //shift by the largest score so that exp cannot overflow
+        let max_score = current_label
+            .iter()
+            .fold(f64::NEG_INFINITY, |max, &element| f64::max(max, element));
+        let exponential_of_current_data_label: Vec<f64> = current_label
+            .iter()
+            .map(|element| (element - max_score).exp())
+            .collect();
         let sum_of_exponentials_of_predictions: f64 =
             exponential_of_current_data_label.iter().sum();
         let probabilties = multiply_f64_slice_by_f64_scalar(
-- 
2.43.0


From 39ba06623a2628fe653cde951df52c7e5cde8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 4/6] fix: multi class leaf output is finite when its
 denominator is zero

---
 .../tree_builders/grad_boost/grad_boost_leaf_output.rs     | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
index 6db81b8..b8e3344 100644
--- a/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
+++ b/multi-target-decision-tree/src/tree/tree_builders/grad_boost/grad_boost_leaf_output.rs
@@ -39,7 +39,12 @@ pub fn calculate_leaf_output_squared_loss(leaf_data: &MultiTargetDataSet) -> Vec
 pub fn calculate_leaf_output_multi_class_loss(leaf_data: &MultiTargetDataSet) -> Vec<f64> {
     let numerator = sum_of_f64_vectors(&leaf_data.labels);
     let denominator = calculate_denominator_term_for_leaf_output(&leaf_data.labels);
-    let numerator_over_denominator = divide_f64_slices_as_vector(&numerator, &denominator);
+    //residuals of exactly 0 or +-1 make the denominator zero, no step is taken then
+    let numerator_over_denominator: Vec<f64> =
+        divide_f64_slices_as_vector(&numerator, &denominator)
+            .iter()
+            .map(|&output| if output.is_finite() { output } else { 0. })
+            .collect();
     let number_of_classes = leaf_data.labels[0].len() as f64;
     let scalar = (number_of_classes - 1.) / number_of_classes;
     let result = multiply_f64_slice_by_f64_scalar(scalar, &numerator_over_denominator);
-- 
2.43.0


From aa5e9e935af03207e50cdf7847139579aceacf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:34 +0000
Subject: [PATCH 5/6] fix: reject class labels that are not whole numbers below
 the number of classes

---
 common/src/data_reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index a635f57..3c32064 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -97,6 +97,12 @@ fn create_multi_target_labels(labels: Vec<f64>, number_of_targets: usize) -> Vec
     let mut multi_target_labels = vec![];
     labels.iter().for_each(|label| {
         let mut multi_target = vec![0.; number_of_targets];
+        assert!(
+            label.fract() == 0. && *label >= 0. && *label < number_of_targets as f64,
+            "label {} is not a class number below {}",
+            label,
+            number_of_targets
+        );
         multi_target[*label as usize] = 1.;
         multi_target_labels.push(multi_target);
     });
-- 
2.43.0


From 4ff7530fff1c5aa3887df3afae6cc142dfe35285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:22 +0000
Subject: [PATCH 6/6] fix: reject feature and label files with different
 numbers of records

---
 common/src/data_reader.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/src/data_reader.rs b/common/src/data_reader.rs
index 3c32064..85fed52 100644
--- a/common/src/data_reader.rs
+++ b/common/src/data_reader.rs
@@ -41,6 +41,13 @@ pub fn read_csv_data_multi_target(
 ) -> MultiTargetDataSet {
     let data_set_features = read_data(file_path_to_features).unwrap();
     let data_set_labels = read_data(file_path_to_labels).unwrap();
+    assert_eq!(
+        data_set_features.len(),
+        data_set_labels.len(),
+        "{} and {} have different numbers of records",
+        file_path_to_features,
+        file_path_to_labels
+    );
 
     let columns = create_feature_columns(&data_set_features);
 
-- 
2.43.0

