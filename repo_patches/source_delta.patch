From 0f6681e071609c185ca5fc815a01c770f176b490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 01/33] fix: keep the head of a stage whose consumers need no
 particular one

ProducerHead::None stripped a RepartitionExec or BroadcastExec that belongs to the plan, so a
coalescing boundary over such a node asked for partitions that do not exist, or missed some.
---
 src/distributed_planner/network_boundary.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distributed_planner/network_boundary.rs b/src/distributed_planner/network_boundary.rs
index 000d09e..2d0da8b 100644
--- a/src/distributed_planner/network_boundary.rs
+++ b/src/distributed_planner/network_boundary.rs
@@ -84,6 +84,11 @@ impl ProducerHead {
     /// Ensures the head of the provided plan complies with the passed [ProducerHead] definition. This
     /// can be called both during planning and lazily at runtime.
     pub(crate) fn insert(self, input: Arc<dyn ExecutionPlan>) -> Result<Arc<dyn ExecutionPlan>> {
+        // Without a specific head, whatever the stage already has as head belongs to the plan, and
+        // the consumers rely on its partitioning.
+        if matches!(self, ProducerHead::None) {
+            return Ok(input);
+        }
         let input = if let Some(r_exec) = input.downcast_ref::<RepartitionExec>() {
             Arc::clone(r_exec.input())
         } else if let Some(b_exec) = input.downcast_ref::<BroadcastExec>() {
-- 
2.43.0


From 100217f4c9e9d30cf08c4ee9e3993f3f02fbb491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 02/33] fix: give each task sent to the local worker its own
 plan instance

Two tasks of a stage routed to the local worker shared the plan nodes, and with
them their connections and channels, so the query failed.
---
 src/coordinator/query_coordinator.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2f9c99f..2cd3f8a 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -151,10 +151,21 @@ impl<'a> StageCoordinator<'a> {
             task_number: task_i,
         };
 
+        // The nodes of a plan hold execution state (e.g. the connections of a network boundary or the
+        // channels of a RepartitionExec), so the same instance cannot be executed by several tasks.
+        // Going over the network gives each task its own instance, but the local worker receives the
+        // plan as is, and more than one task of this stage can be routed to it.
+        let plan = match LocalWorkerContext::from_ctx(self.task_ctx) {
+            Some(lw) if lw.self_url == url && self.task_count > 1 => {
+                MaybeEncoded::Encoded(encode_execution_plan(specialized, self.task_ctx)?)
+            }
+            _ => MaybeEncoded::Decoded(specialized),
+        };
+
         let set_plan_request = SetPlanRequest {
             task_key,
             task_count: self.task_count,
-            plan: MaybeEncoded::Decoded(specialized),
+            plan,
             work_unit_feed_declarations,
             target_worker_url: url.clone(),
             query_start_time_ns: self.metrics.instantiation_time,
-- 
2.43.0


From 72f9cd9df38d3ee3fd972c68df1d2ed415c9f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 03/33] fix: saturate the cost and row estimates used for
 planning

Complexity::cost, Cost additions and the fallback row estimate overflowed on
large statistics: a panic in debug builds, a wrapped (tiny) cost in release.
---
 src/distributed_planner/statistics/complexity.rs      | 2 +-
 src/distributed_planner/statistics/cost.rs            | 2 +-
 src/distributed_planner/statistics/plan_statistics.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distributed_planner/statistics/complexity.rs b/src/distributed_planner/statistics/complexity.rs
index b03c6c7..c0d8f36 100644
--- a/src/distributed_planner/statistics/complexity.rs
+++ b/src/distributed_planner/statistics/complexity.rs
@@ -100,7 +100,7 @@ impl Complexity {
                 // `ilog2` panics on 0, which happens whenever the logged input has zero estimated
                 // bytes/rows (e.g. an empty or fully-pruned relation). Flooring at 1 makes log2
                 // contribute 0 there, i.e. sorting/merging nothing costs nothing.
-                n * m.checked_ilog2().unwrap_or(0) as usize
+                n.saturating_mul(m.checked_ilog2().unwrap_or(0) as usize)
             }
             Self::Plus(n, m) => n
                 .cost(output_stat, input_stats)?
diff --git a/src/distributed_planner/statistics/cost.rs b/src/distributed_planner/statistics/cost.rs
index dbb76e5..fa63690 100644
--- a/src/distributed_planner/statistics/cost.rs
+++ b/src/distributed_planner/statistics/cost.rs
@@ -25,7 +25,7 @@ impl AddAssign for Cost {
 
 fn sum_precision(one: Precision<usize>, other: Precision<usize>) -> Precision<usize> {
     match (one.get_value(), other.get_value()) {
-        (Some(one), Some(other)) => Precision::Inexact(one + other),
+        (Some(one), Some(other)) => Precision::Inexact(one.saturating_add(*other)),
         (Some(one), None) => Precision::Inexact(*one),
         (None, Some(other)) => Precision::Inexact(*other),
         (None, None) => Precision::Absent,
diff --git a/src/distributed_planner/statistics/plan_statistics.rs b/src/distributed_planner/statistics/plan_statistics.rs
index 636d4b8..82212c5 100644
--- a/src/distributed_planner/statistics/plan_statistics.rs
+++ b/src/distributed_planner/statistics/plan_statistics.rs
@@ -3,7 +3,6 @@ use datafusion::common::stats::Precision;
 use datafusion::common::{Statistics, plan_err};
 use datafusion::error::Result;
 use datafusion::physical_plan::{ExecutionPlan, StatisticsArgs};
-use itertools::Itertools;
 use std::sync::Arc;
 
 /// Ratio applied to the total number of rows for calculating the fallback value for NDVs.
@@ -28,7 +27,8 @@ pub(super) fn plan_statistics(
         && let Some(child_rows) = children_stats
             .iter()
             .flat_map(|v| v.num_rows.get_value())
-            .sum1::<usize>()
+            .copied()
+            .reduce(usize::saturating_add)
     {
         stats.num_rows = Precision::Inexact(child_rows)
     }
-- 
2.43.0


From f5e3866e8b2b332feecf9470eab6464d479a55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 04/33] fix: extrapolate sampled statistics without overflow

With nothing pulled from the leaves yet the completion estimate was 0, the
scale became usize::MAX and the byte sizes overflowed; the existing fallback
covers that case, as its comment says.
---
 src/coordinator/prepare_dynamic_plan.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index dff4e28..f12121d 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -274,7 +274,9 @@ async fn gather_runtime_statistics(
         // legitimately-empty stages (which would otherwise report `rows_pulled_from_leafs == 0` and
         // make the completion fraction 0, blowing up the `ready / fraction` extrapolation below).
         1.0
-    } else if let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan) {
+    } else if rows_pulled_from_leafs > 0
+        && let Some(estimated_driver_path_leaf_rows) = estimated_driver_path_leaf_rows(plan)
+    {
         // The stage is still producing. Estimate how far along it is from the fraction of the
         // driver-path leaf rows consumed so far.
         (rows_pulled_from_leafs as f32 / estimated_driver_path_leaf_rows as f32).min(1.0)
@@ -295,8 +297,14 @@ async fn gather_runtime_statistics(
         return Ok((zero_stats(n_cols), new_metrics));
     }
 
-    let per_col_byte_size = vec_mul(per_col_bytes_ready, 1. / estimated_pct_sampled);
-    let total_byte_size: usize = per_col_byte_size.iter().sum();
+    let scale = (1. / estimated_pct_sampled) as usize;
+    let per_col_byte_size: Vec<usize> = per_col_bytes_ready
+        .into_iter()
+        .map(|bytes| bytes.saturating_mul(scale))
+        .collect();
+    let total_byte_size = per_col_byte_size
+        .iter()
+        .fold(0usize, |acc, bytes| acc.saturating_add(*bytes));
 
     new_metrics.push(BytesCounterMetric::new_metric(
         "estimated_output_bytes",
-- 
2.43.0


From bedb09ad1714c4edb5502c335f81db3562751bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 05/33] fix: give every stage at least one task

A task count of 0 (an empty scan, or a handler that answers 0) reached the
scale-up of the leaf and divided by zero while planning.
---
 src/events/desired_task_count.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events/desired_task_count.rs b/src/events/desired_task_count.rs
index 4a33fe1..2428c1a 100644
--- a/src/events/desired_task_count.rs
+++ b/src/events/desired_task_count.rs
@@ -113,10 +113,11 @@ impl TaskCountAnnotation {
         }
     }
 
+    /// Brings the task count between 1 and `limit`: a stage always needs at least one task.
     pub(crate) fn limit(self, limit: usize) -> Self {
         match self {
-            Desired(desired) => Desired(desired.min(limit)),
-            Maximum(maximum) => Maximum(maximum.min(limit)),
+            Desired(desired) => Desired(desired.min(limit).max(1)),
+            Maximum(maximum) => Maximum(maximum.min(limit).max(1)),
         }
     }
 
-- 
2.43.0


From 45e588182fe0862779d2a108616756f2141ad972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:19 +0000
Subject: [PATCH 06/33] fix: plan file scans when
 file_scan_config_bytes_per_partition is 0

It divided by zero; dynamic_bytes_per_partition is already floored at 1.
---
 src/events/defaults/file_scan_config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index f81bd1e..00a0b08 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -27,7 +27,7 @@ pub(crate) fn file_scan_config_desired_task_count(
     }
 
     let task_count = total_bytes
-        .div_ceil(d_cfg.file_scan_config_bytes_per_partition)
+        .div_ceil(d_cfg.file_scan_config_bytes_per_partition.max(1))
         .div_ceil(cfg.target_partitions());
 
     Some(Ok(DesiredTaskCountEventResponse::desired(task_count)))
-- 
2.43.0


From 32b6cccdee8c79e8c8cfda48b0f785475054a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 07/33] fix: dynamic planning divided by zero for a stage
 without partitions

---
 src/coordinator/prepare_dynamic_plan.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index f12121d..e2f5a3e 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -64,7 +64,14 @@ pub(super) async fn prepare_dynamic_plan(
                 .get_value()
                 .unwrap_or(&0)
                 .div_ceil(nb_ctx.d_cfg.dynamic_bytes_per_partition.max(1))
-                .div_ceil(input_stage.plan.output_partitioning().partition_count())
+                // A plan might have no partitions at all.
+                .div_ceil(
+                    input_stage
+                        .plan
+                        .output_partitioning()
+                        .partition_count()
+                        .max(1),
+                )
                 .clamp(1, nb_ctx.max_tasks()?);
             let task_count = nb_ctx
                 .task_count(&input_stage.plan)?
-- 
2.43.0


From 4126a10a15e65331e3fd54ed3142512f015f1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 08/33] fix: option headers are recognised by their full
 reserved prefix only

---
 src/config_extension_ext.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 6776d46..1db69d3 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -60,11 +60,9 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .map(|entry| entry.key)
         .collect::<HashSet<_>>();
 
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX);
     for (k, v) in headers.iter() {
-        let key = k.as_str().trim_start_matches(FLIGHT_METADATA_CONFIG_PREFIX);
-        let prefix = format!("{}.", T::PREFIX);
-        if key.starts_with(&prefix) {
-            let key = key.trim_start_matches(&prefix);
+        if let Some(key) = k.as_str().strip_prefix(&prefix) {
             if !known_keys.contains(key) {
                 continue;
             }
-- 
2.43.0


From 9acd78baaba7d43cde22f6a94e10239abb0d5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 09/33] fix: options with upper-case letters in their name did
 not reach the workers

---
 src/config_extension_ext.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/config_extension_ext.rs b/src/config_extension_ext.rs
index 1db69d3..b3eeb40 100644
--- a/src/config_extension_ext.rs
+++ b/src/config_extension_ext.rs
@@ -1,4 +1,4 @@
-use datafusion::common::{DataFusionError, HashSet, internal_datafusion_err};
+use datafusion::common::{DataFusionError, HashMap, internal_datafusion_err};
 use datafusion::config::ConfigExtension;
 use datafusion::prelude::SessionConfig;
 use http::{HeaderMap, HeaderName};
@@ -57,15 +57,16 @@ pub(crate) fn set_distributed_option_extension_from_headers<'a, T: ConfigExtensi
         .as_mut()
         .entries()
         .into_iter()
-        .map(|entry| entry.key)
-        .collect::<HashSet<_>>();
+        // Header names are always lower case.
+        .map(|entry| (entry.key.to_ascii_lowercase(), entry.key))
+        .collect::<HashMap<_, _>>();
 
-    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX);
+    let prefix = format!("{FLIGHT_METADATA_CONFIG_PREFIX}{}.", T::PREFIX).to_ascii_lowercase();
     for (k, v) in headers.iter() {
         if let Some(key) = k.as_str().strip_prefix(&prefix) {
-            if !known_keys.contains(key) {
+            let Some(key) = known_keys.get(key) else {
                 continue;
-            }
+            };
 
             result.as_mut().set(
                 key,
-- 
2.43.0


From e843d5e59ea139f70fa3f5f337d5e5d2a3ad0d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 10/33] fix: push a fetch below NetworkCoalesceExec only from
 nodes that forward their input rows

A top-k sort, join, filter or aggregate with a fetch may need any number of
input rows to produce its fetch output rows, so bounding the producer stage by
that fetch lost rows in plans with hand-placed network boundaries.
---
 .../push_fetch_into_network_coalesce.rs              | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index a9130b3..71ab2c4 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -2,7 +2,9 @@ use std::sync::Arc;
 
 use datafusion::common::Result;
 use datafusion::common::tree_node::{Transformed, TreeNode};
+use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::limit::GlobalLimitExec;
+use datafusion::physical_plan::sorts::sort_preserving_merge::SortPreservingMergeExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 
 use crate::NetworkCoalesceExec;
@@ -101,7 +103,15 @@ fn fetch_required_from_child(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
             .and_then(|fetch| fetch.checked_add(global_limit.skip()));
     }
 
-    plan.fetch()
+    // A fetch bounds the input only in nodes that forward their input rows as they come. A top-k
+    // sort, a filter or a join with a fetch can need any number of input rows to produce its own,
+    // and a LocalLimitExec needs its fetch from every partition, while a producer with a fetch may
+    // keep that many rows over all of its partitions (the ones of a top-k sort share a filter).
+    if plan.is::<CoalescePartitionsExec>() || plan.is::<SortPreservingMergeExec>() {
+        return plan.fetch();
+    }
+
+    None
 }
 
 #[cfg(test)]
-- 
2.43.0


From 634881a630212b15c6998e964d0188b9a9ced70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 11/33] fix: do not push a fetch of zero rows into a producer
 stage

DataFusion's top-k operator panics when it is built for zero rows, so a plan with
hand-placed network boundaries failed where it used to return no rows.
---
 src/distributed_planner/push_fetch_into_network_coalesce.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/distributed_planner/push_fetch_into_network_coalesce.rs b/src/distributed_planner/push_fetch_into_network_coalesce.rs
index 71ab2c4..23e6860 100644
--- a/src/distributed_planner/push_fetch_into_network_coalesce.rs
+++ b/src/distributed_planner/push_fetch_into_network_coalesce.rs
@@ -68,6 +68,10 @@ pub(crate) fn push_fetch_into_network_coalesce(
         let Some(fetch) = fetch_required_from_child(&node) else {
             return Ok(Transformed::no(node));
         };
+        // Nothing is read from the producers anyway, and a top-k sort refuses to keep zero rows.
+        if fetch == 0 {
+            return Ok(Transformed::no(node));
+        }
 
         let mut changed = false;
         let new_children = node
-- 
2.43.0


From e1192c5f7327bf0daca626f1fb0ff0f6300485f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 12/33] fix: give every task the same number of file groups
 when splitting a file scan

---
 src/events/defaults/file_scan_config.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index 00a0b08..ce15d64 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -40,7 +40,7 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let file_scan = dse.data_source().downcast_ref::<FileScanConfig>()?;
     let partition_count = ev.plan.output_partitioning().partition_count();
 
-    let rebalanced = if file_scan.output_partitioning.is_some() {
+    let mut rebalanced = if file_scan.output_partitioning.is_some() {
         let all_partitioned_files = file_scan
             .file_groups
             .iter()
@@ -61,6 +61,10 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
             .collect()
     };
 
+    // All the tasks must scan the same number of partitions, and at least one.
+    let groups_per_task = rebalanced.len().div_ceil(ev.task_count).max(1);
+    rebalanced.resize_with(groups_per_task * ev.task_count, || FileGroup::new(vec![]));
+
     let mut file_scan_template = file_scan.clone();
     file_scan_template.file_groups.clear();
     let mut file_scans = vec![file_scan_template; ev.task_count];
-- 
2.43.0


From 9d0724d70759007c136ed076b43904ff8ac5f195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 13/33] fix: keep declared file scan partitions whole when
 splitting over tasks

---
 src/events/defaults/file_scan_config.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/events/defaults/file_scan_config.rs b/src/events/defaults/file_scan_config.rs
index ce15d64..a1055bc 100644
--- a/src/events/defaults/file_scan_config.rs
+++ b/src/events/defaults/file_scan_config.rs
@@ -41,15 +41,15 @@ pub(crate) fn file_scan_config_scale_up_leaf_node(
     let partition_count = ev.plan.output_partitioning().partition_count();
 
     let mut rebalanced = if file_scan.output_partitioning.is_some() {
-        let all_partitioned_files = file_scan
-            .file_groups
-            .iter()
-            .flat_map(|file_group| file_group.iter().cloned())
-            .collect::<Vec<_>>();
-        rebalance_round_robin(all_partitioned_files, partition_count * ev.task_count)
-            .into_iter()
-            .map(FileGroup::new)
-            .collect::<Vec<_>>()
+        // Each file group holds one partition of the declared partitioning, and the nodes above rely
+        // on that, so the files of a group must stay together.
+        rebalance_round_robin(
+            file_scan.file_groups.clone(),
+            partition_count * ev.task_count,
+        )
+        .into_iter()
+        .map(|groups| FileGroup::new(groups.into_iter().flat_map(FileGroup::into_inner).collect()))
+        .collect::<Vec<_>>()
     } else {
         FileGroupPartitioner::new()
             .with_target_partitions(partition_count * ev.task_count)
-- 
2.43.0


From 5879c5b21d2af206f1968224c698ba230e566499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 14/33] fix: decode Avro errors sent by a worker

---
 src/protocol/grpc/errors/arrow_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/arrow_error.rs b/src/protocol/grpc/errors/arrow_error.rs
index b78a950..01e4904 100644
--- a/src/protocol/grpc/errors/arrow_error.rs
+++ b/src/protocol/grpc/errors/arrow_error.rs
@@ -8,7 +8,7 @@ pub struct ArrowErrorProto {
     pub ctx: Option<String>,
     #[prost(
         oneof = "ArrowErrorInnerProto",
-        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
+        tags = "2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21"
     )]
     pub inner: Option<ArrowErrorInnerProto>,
 }
-- 
2.43.0


From bde24b915479801ef57c68b01fe7fd2bd69cc5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 15/33] fix: send Parquet NeedMoreDataRange errors over the
 wire

---
 src/protocol/grpc/errors/parquet_error.rs | 26 ++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/protocol/grpc/errors/parquet_error.rs b/src/protocol/grpc/errors/parquet_error.rs
index 5c2e954..a1da735 100644
--- a/src/protocol/grpc/errors/parquet_error.rs
+++ b/src/protocol/grpc/errors/parquet_error.rs
@@ -5,7 +5,7 @@ use datafusion::parquet::errors::ParquetError;
 
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ParquetErrorProto {
-    #[prost(oneof = "ParquetErrorInnerProto", tags = "1,2,3,4,5,6,7")]
+    #[prost(oneof = "ParquetErrorInnerProto", tags = "1,2,3,4,5,6,7,8")]
     pub inner: Option<ParquetErrorInnerProto>,
 }
 
@@ -25,6 +25,8 @@ pub enum ParquetErrorInnerProto {
     External(String),
     #[prost(uint64, tag = "7")]
     NeedMoreData(u64),
+    #[prost(message, tag = "8")]
+    NeedMoreDataRange(NeedMoreDataRangeProto),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -35,6 +37,14 @@ pub struct IndexOutOfBoundProto {
     b: u64,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct NeedMoreDataRangeProto {
+    #[prost(uint64, tag = "1")]
+    start: u64,
+    #[prost(uint64, tag = "2")]
+    end: u64,
+}
+
 /// Mirrors `ParquetError`'s `Display` without needing the type itself, so that endpoints built
 /// without the `parquet` feature can still surface the message an error carried over the wire.
 impl std::fmt::Display for ParquetErrorProto {
@@ -53,6 +63,9 @@ impl std::fmt::Display for ParquetErrorProto {
             }
             ParquetErrorInnerProto::External(msg) => write!(f, "External: {msg}"),
             ParquetErrorInnerProto::NeedMoreData(n) => write!(f, "NeedMoreData: {n}"),
+            ParquetErrorInnerProto::NeedMoreDataRange(NeedMoreDataRangeProto { start, end }) => {
+                write!(f, "NeedMoreDataRange: {start}..{end}")
+            }
         }
     }
 }
@@ -87,6 +100,14 @@ impl ParquetErrorProto {
             ParquetError::NeedMoreData(a) => ParquetErrorProto {
                 inner: Some(ParquetErrorInnerProto::NeedMoreData(*a as u64)),
             },
+            ParquetError::NeedMoreDataRange(range) => ParquetErrorProto {
+                inner: Some(ParquetErrorInnerProto::NeedMoreDataRange(
+                    NeedMoreDataRangeProto {
+                        start: range.start,
+                        end: range.end,
+                    },
+                )),
+            },
             _ => ParquetErrorProto {
                 inner: Some(ParquetErrorInnerProto::General(
                     "ParquetError could not be serialized into protobuf".to_string(),
@@ -112,6 +133,9 @@ impl ParquetErrorProto {
                 ParquetError::External(Box::from(msg.to_string()))
             }
             ParquetErrorInnerProto::NeedMoreData(n) => ParquetError::NeedMoreData(*n as usize),
+            ParquetErrorInnerProto::NeedMoreDataRange(NeedMoreDataRangeProto { start, end }) => {
+                ParquetError::NeedMoreDataRange(*start..*end)
+            }
         }
     }
 }
-- 
2.43.0


From cedfb1091b05e79eaeb919738a5d5d2baaf10a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 16/33] fix: keep operation and implementer of object store
 NotImplemented errors over the wire

---
 src/protocol/grpc/errors/objectstore_error.rs | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/protocol/grpc/errors/objectstore_error.rs b/src/protocol/grpc/errors/objectstore_error.rs
index 933cf16..709808e 100644
--- a/src/protocol/grpc/errors/objectstore_error.rs
+++ b/src/protocol/grpc/errors/objectstore_error.rs
@@ -26,7 +26,7 @@ pub enum ObjectStoreErrorInnerProto {
     #[prost(message, tag = "8")]
     NotModified(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "9")]
-    NotImplemented(bool),
+    NotImplemented(ObjectStoreNotImplementedErrorProto),
     #[prost(message, tag = "10")]
     PermissionDenied(ObjectStoreSourcePathErrorProto),
     #[prost(message, tag = "11")]
@@ -57,6 +57,15 @@ pub struct ObjectStoreSourcePathErrorProto {
     source: String,
 }
 
+#[derive(Clone, PartialEq, ::prost::Message)]
+pub struct ObjectStoreNotImplementedErrorProto {
+    // Tag 1 was once a bool.
+    #[prost(string, tag = "2")]
+    operation: String,
+    #[prost(string, tag = "3")]
+    implementer: String,
+}
+
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct ObjectStoreConfigurationKeyErrorProto {
     #[prost(string, tag = "1")]
@@ -130,10 +139,15 @@ impl ObjectStoreErrorProto {
                 )),
             },
             object_store::Error::NotImplemented {
-                operation: _,
-                implementer: _,
+                operation,
+                implementer,
             } => ObjectStoreErrorProto {
-                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(true)),
+                inner: Some(ObjectStoreErrorInnerProto::NotImplemented(
+                    ObjectStoreNotImplementedErrorProto {
+                        operation: operation.to_string(),
+                        implementer: implementer.to_string(),
+                    },
+                )),
             },
             object_store::Error::PermissionDenied { path, source } => ObjectStoreErrorProto {
                 inner: Some(ObjectStoreErrorInnerProto::PermissionDenied(
@@ -213,10 +227,10 @@ impl ObjectStoreErrorProto {
                 path: msg.path.clone(),
                 source: msg.source.clone().into(),
             },
-            ObjectStoreErrorInnerProto::NotImplemented(_msg) => {
+            ObjectStoreErrorInnerProto::NotImplemented(msg) => {
                 object_store::Error::NotImplemented {
-                    operation: "unknown_operation".to_string(),
-                    implementer: "unknown_implementer".to_string(),
+                    operation: msg.operation.clone(),
+                    implementer: msg.implementer.clone(),
                 }
             }
             ObjectStoreErrorInnerProto::PermissionDenied(msg) => {
-- 
2.43.0


From befedb72deb790156e081b3bac6f439f1c3bf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 17/33] fix: keep the kind of FFI errors over the wire

---
 src/protocol/grpc/errors/datafusion_error.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/errors/datafusion_error.rs b/src/protocol/grpc/errors/datafusion_error.rs
index 23646d4..25728f0 100644
--- a/src/protocol/grpc/errors/datafusion_error.rs
+++ b/src/protocol/grpc/errors/datafusion_error.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 pub struct DataFusionErrorProto {
     #[prost(
         oneof = "DataFusionErrorInnerProto",
-        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19"
+        tags = "1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20"
     )]
     pub inner: Option<DataFusionErrorInnerProto>,
 }
@@ -59,6 +59,8 @@ pub enum DataFusionErrorInnerProto {
     Collection(DataFusionCollectionErrorProto),
     #[prost(message, boxed, tag = "19")]
     Shared(Box<DataFusionErrorProto>),
+    #[prost(string, tag = "20")]
+    Ffi(String),
 }
 
 #[derive(Clone, PartialEq, ::prost::Message)]
@@ -177,7 +179,7 @@ impl DataFusionErrorProto {
                 ))),
             },
             DataFusionError::Ffi(err) => DataFusionErrorProto {
-                inner: Some(DataFusionErrorInnerProto::External(err.clone())),
+                inner: Some(DataFusionErrorInnerProto::Ffi(err.clone())),
             },
         }
     }
@@ -281,6 +283,7 @@ impl DataFusionErrorProto {
             DataFusionErrorInnerProto::Shared(err) => {
                 DataFusionError::Shared(Arc::new(err.to_datafusion_err()))
             }
+            DataFusionErrorInnerProto::Ffi(msg) => DataFusionError::Ffi(msg.clone()),
         }
     }
 }
-- 
2.43.0


From bd12f43322bc3b1879e80a056f8bd5f764c5461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 18/33] fix: a time of zero stays zero across the wire

---
 src/protocol/grpc/metrics_proto.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/protocol/grpc/metrics_proto.rs b/src/protocol/grpc/metrics_proto.rs
index b71ec3e..a2b7a57 100644
--- a/src/protocol/grpc/metrics_proto.rs
+++ b/src/protocol/grpc/metrics_proto.rs
@@ -311,7 +311,10 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
         }
         Some(pb::metric::Value::ElapsedCompute(elapsed)) => {
             let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(elapsed.value));
+            // `add_duration` turns 0ns into 1ns: a time that was never recorded stays at 0.
+            if elapsed.value > 0 {
+                time.add_duration(std::time::Duration::from_nanos(elapsed.value));
+            }
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::ElapsedCompute(time),
                 partition,
@@ -392,7 +395,10 @@ pub fn metric_proto_to_df(metric: pb::Metric) -> Result<Arc<Metric>, DataFusionE
         }
         Some(pb::metric::Value::Time(named_time)) => {
             let time = Time::new();
-            time.add_duration(std::time::Duration::from_nanos(named_time.value));
+            // `add_duration` turns 0ns into 1ns: a time that was never recorded stays at 0.
+            if named_time.value > 0 {
+                time.add_duration(std::time::Duration::from_nanos(named_time.value));
+            }
             Ok(Arc::new(Metric::new_with_labels(
                 MetricValue::Time {
                     name: Cow::Owned(named_time.name),
-- 
2.43.0


From bf578937efef789490af552dc00e7adf9afd4f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 19/33] fix: work unit latencies tolerate clocks that disagree

---
 src/work_unit_feed/remote_work_unit_feed.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/work_unit_feed/remote_work_unit_feed.rs b/src/work_unit_feed/remote_work_unit_feed.rs
index 5b73ef7..95ab77a 100644
--- a/src/work_unit_feed/remote_work_unit_feed.rs
+++ b/src/work_unit_feed/remote_work_unit_feed.rs
@@ -193,14 +193,17 @@ impl RemoteFeedProvider {
 
                 msg_count.add(1);
 
-                send_latency_max.add_nanos(sent_timestamp_unix_nanos - base);
-                send_latency_p50.add_nanos(sent_timestamp_unix_nanos - base);
+                // These timestamps come from the clocks of different machines, which might disagree.
+                send_latency_max.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
+                send_latency_p50.add_nanos(sent_timestamp_unix_nanos.saturating_sub(base));
 
-                received_latency_max.add_nanos(received_timestamp_unix_nanos - base);
-                received_latency_p50.add_nanos(received_timestamp_unix_nanos - base);
+                received_latency_max.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
+                received_latency_p50.add_nanos(received_timestamp_unix_nanos.saturating_sub(base));
 
-                processed_latency_max.add_nanos(processed_timestamp_unix_nanos - base);
-                processed_latency_p50.add_nanos(processed_timestamp_unix_nanos - base);
+                processed_latency_max
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
+                processed_latency_p50
+                    .add_nanos(processed_timestamp_unix_nanos.saturating_sub(base));
 
                 Ok(work_unit)
             })
-- 
2.43.0


From eac3b8446a07cec7eaf4ca6611e0466af88947bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 20/33] fix: a broken coordinator stream fails the work unit
 feeds it leaves incomplete

---
 src/worker/impl_coordinator_channel.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/worker/impl_coordinator_channel.rs b/src/worker/impl_coordinator_channel.rs
index efba61c..7fcfaf4 100644
--- a/src/worker/impl_coordinator_channel.rs
+++ b/src/worker/impl_coordinator_channel.rs
@@ -123,7 +123,19 @@ impl Worker {
         #[allow(clippy::disallowed_methods)]
         tokio::spawn(async move {
             let mut stream = stream.map_ok(set_work_unit_received_time);
-            while let Some(Ok(msg)) = stream.next().await {
+            while let Some(msg) = stream.next().await {
+                let msg = match msg {
+                    Ok(msg) => msg,
+                    Err(err) => {
+                        // No further work units can be received, so the feeds that did not end yet
+                        // are incomplete. Dropping their senders would look like an EOS.
+                        let err = Arc::new(err);
+                        for tx in work_unit_senders.take().unwrap_or_default().into_values() {
+                            let _ = tx.send(Err(DataFusionError::Shared(Arc::clone(&err))));
+                        }
+                        break;
+                    }
+                };
                 match msg {
                     CoordinatorToWorkerMsg::WorkUnitBatch(work_unit_batch) => {
                         let Some(work_unit_senders) = work_unit_senders.as_mut() else {
-- 
2.43.0


From 886acc4877aee457a97363c424994fe3d3c9262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 21/33] fix: a partial reduction does not expand grouping sets
 a second time

---
 .../partial_reduce_below_network_shuffles.rs  | 41 +++----------------
 1 file changed, 5 insertions(+), 36 deletions(-)

diff --git a/src/distributed_planner/partial_reduce_below_network_shuffles.rs b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
index b8c16f3..7bc9262 100644
--- a/src/distributed_planner/partial_reduce_below_network_shuffles.rs
+++ b/src/distributed_planner/partial_reduce_below_network_shuffles.rs
@@ -5,8 +5,7 @@ use datafusion::common::DataFusionError;
 use datafusion::common::tree_node::{Transformed, TreeNode};
 use datafusion::config::ConfigOptions;
 use datafusion::physical_expr::Partitioning;
-use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode, PhysicalGroupBy};
-use datafusion::physical_plan::expressions::Column;
+use datafusion::physical_plan::aggregates::{AggregateExec, AggregateMode};
 use datafusion::physical_plan::repartition::RepartitionExec;
 use datafusion::physical_plan::{ChildrenPropertiesMode, ExecutionPlan, ReplaceChildrenOptions};
 use std::sync::Arc;
@@ -47,40 +46,10 @@ pub(crate) fn partial_reduce_below_network_shuffles(
             return Ok(Transformed::no(plan));
         }
 
-        // Group-by columns in the Partial output schema appear at indices 0..N-1.
-        let partial_reduce_group_by = {
-            let orig = agg.group_expr();
-            let exprs = orig
-                .expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            let null_exprs = orig
-                .null_expr()
-                .iter()
-                .enumerate()
-                .map(|(i, (_, name))| {
-                    (
-                        std::sync::Arc::new(Column::new(name, i))
-                            as std::sync::Arc<dyn datafusion::physical_expr::PhysicalExpr>,
-                        name.clone(),
-                    )
-                })
-                .collect();
-            PhysicalGroupBy::new(
-                exprs,
-                null_exprs,
-                orig.groups().to_vec(),
-                orig.has_grouping_set(),
-            )
-        };
+        // The Partial output carries the group-by columns first, followed by the grouping id if there
+        // are grouping sets. Its rows were already expanded once per grouping set, so, as in the
+        // Final aggregation, all those columns are plain group-by keys from here on.
+        let partial_reduce_group_by = agg.group_expr().as_final();
 
         // PartialReduce wraps the existing RepartitionExec, running on
         // hash-partitioned data where same keys are already in the same partition.
-- 
2.43.0


From e167a385f859fa6805b27875f6c87035ae722453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 22/33] fix: network shuffles and broadcasts do not pretend to
 keep the row order

---
 .../distributed_query_planner.rs              |  5 +++-
 src/distributed_planner/mod.rs                |  1 +
 .../sort_above_ordered_repartitions.rs        | 30 +++++++++++++++++++
 src/execution_plans/network_broadcast.rs      |  5 ++++
 src/execution_plans/network_shuffle.rs        |  9 +++++-
 5 files changed, 48 insertions(+), 2 deletions(-)
 create mode 100644 src/distributed_planner/sort_above_ordered_repartitions.rs

diff --git a/src/distributed_planner/distributed_query_planner.rs b/src/distributed_planner/distributed_query_planner.rs
index d312b32..6a9877c 100644
--- a/src/distributed_planner/distributed_query_planner.rs
+++ b/src/distributed_planner/distributed_query_planner.rs
@@ -8,6 +8,7 @@ use crate::distributed_planner::normalize_collect_joins::normalize_collect_joins
 use crate::distributed_planner::partial_reduce_below_network_shuffles::partial_reduce_below_network_shuffles;
 use crate::distributed_planner::prepare_network_boundaries::prepare_network_boundaries;
 use crate::distributed_planner::push_fetch_into_network_coalesce::push_fetch_into_network_coalesce;
+use crate::distributed_planner::sort_above_ordered_repartitions::sort_above_ordered_repartitions;
 use crate::events::{ScaleUpLeafNodeEvent, ScaleUpLeafNodeHandlers};
 use crate::explain_analyze::DistributedAnalyzeExec;
 use crate::{DistributedConfig, DistributedExec, NetworkBoundaryExt};
@@ -37,7 +38,8 @@ use std::sync::Arc;
 ///    hash joins so those build sides can later be wrapped in `NetworkBroadcastExec`.
 ///    [insert_children_isolator_unions] replaces `UnionExec` nodes with single-node-correct
 ///    `ChildrenIsolatorUnionExec` placeholders whose task maps are finalized during boundary
-///    injection.
+///    injection. [sort_above_ordered_repartitions] restores the order that hash
+///    `RepartitionExec`s keep and network shuffles do not.
 ///
 /// 2. **Boundary injection.** [inject_network_boundaries] walks the plan, computes a task count
 ///    for each node, and inserts `NetworkShuffleExec` / `NetworkBroadcastExec` /
@@ -147,6 +149,7 @@ fn create_distributed_plan(
 
         plan = insert_broadcast_execs(plan, cfg)?;
         plan = insert_children_isolator_unions(plan, cfg)?;
+        plan = sort_above_ordered_repartitions(plan)?;
 
         if d_cfg.dynamic_task_count {
             // The task count will be decided dynamically at execution time.
diff --git a/src/distributed_planner/mod.rs b/src/distributed_planner/mod.rs
index de006f1..1221ebc 100644
--- a/src/distributed_planner/mod.rs
+++ b/src/distributed_planner/mod.rs
@@ -9,6 +9,7 @@ mod partial_reduce_below_network_shuffles;
 mod prepare_network_boundaries;
 mod push_fetch_into_network_coalesce;
 mod session_state_builder_ext;
+mod sort_above_ordered_repartitions;
 mod statistics;
 
 pub use distributed_config::DistributedConfig;
diff --git a/src/distributed_planner/sort_above_ordered_repartitions.rs b/src/distributed_planner/sort_above_ordered_repartitions.rs
new file mode 100644
index 0000000..a907edf
--- /dev/null
+++ b/src/distributed_planner/sort_above_ordered_repartitions.rs
@@ -0,0 +1,30 @@
+use datafusion::common::Result;
+use datafusion::common::tree_node::{Transformed, TreeNode};
+use datafusion::physical_expr::Partitioning;
+use datafusion::physical_plan::repartition::RepartitionExec;
+use datafusion::physical_plan::sorts::sort::SortExec;
+use datafusion::physical_plan::{ExecutionPlan, ExecutionPlanProperties};
+use std::sync::Arc;
+
+/// A hash [RepartitionExec] may keep the order of its input, and the nodes above may rely on it.
+/// The network shuffle placed above it interleaves the rows of several producer tasks, so there the
+/// order needs to be restored explicitly. If no network shuffle ends up above it, the input of the
+/// [SortExec] is already sorted, and it just forwards it.
+pub(super) fn sort_above_ordered_repartitions(
+    plan: Arc<dyn ExecutionPlan>,
+) -> Result<Arc<dyn ExecutionPlan>> {
+    plan.transform_up(|plan| {
+        let Some(r_exec) = plan.downcast_ref::<RepartitionExec>() else {
+            return Ok(Transformed::no(plan));
+        };
+        if !matches!(r_exec.partitioning(), Partitioning::Hash(_, _)) {
+            return Ok(Transformed::no(plan));
+        }
+        let Some(ordering) = plan.output_ordering().cloned() else {
+            return Ok(Transformed::no(plan));
+        };
+        let sorted = SortExec::new(ordering, plan).with_preserve_partitioning(true);
+        Ok(Transformed::yes(Arc::new(sorted)))
+    })
+    .map(|transformed| transformed.data)
+}
diff --git a/src/execution_plans/network_broadcast.rs b/src/execution_plans/network_broadcast.rs
index 94bca6d..8fd2522 100644
--- a/src/execution_plans/network_broadcast.rs
+++ b/src/execution_plans/network_broadcast.rs
@@ -127,8 +127,13 @@ pub struct NetworkBroadcastExec {
 impl NetworkBroadcastExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
         let input_partition_count = input_properties.partitioning.partition_count();
+        // The rows of all the producer tasks are interleaved, so none of their orderings hold here.
+        let mut eq_properties = input_properties.eq_properties.clone();
+        eq_properties.clear_orderings();
+        eq_properties.clear_per_partition_constants();
         let properties = Arc::new(
             PlanProperties::clone(&input_properties)
+                .with_eq_properties(eq_properties)
                 .with_partitioning(Partitioning::UnknownPartitioning(input_partition_count)),
         );
 
diff --git a/src/execution_plans/network_shuffle.rs b/src/execution_plans/network_shuffle.rs
index fbb4200..fcd2d1f 100644
--- a/src/execution_plans/network_shuffle.rs
+++ b/src/execution_plans/network_shuffle.rs
@@ -109,8 +109,15 @@ pub struct NetworkShuffleExec {
 
 impl NetworkShuffleExec {
     pub(crate) fn from_stage(input_stage: Stage, input_properties: Arc<PlanProperties>) -> Self {
+        // The rows of all the producer tasks are interleaved, so none of their orderings hold here.
+        let mut eq_properties = input_properties.eq_properties.clone();
+        eq_properties.clear_orderings();
+        eq_properties.clear_per_partition_constants();
+        let properties =
+            Arc::new(PlanProperties::clone(&input_properties).with_eq_properties(eq_properties));
+
         Self {
-            properties: input_properties,
+            properties,
             worker_connections: WorkerConnectionPool::new(input_stage.task_count()),
             input_stage,
         }
-- 
2.43.0


From 21eed51f7a42ba114bcf59be1ba0a440b5ab1bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:30 +0000
Subject: [PATCH 23/33] fix: a limited build side is chosen once, not by every
 task that reads its broadcast

---
 src/distributed_planner/insert_broadcast.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distributed_planner/insert_broadcast.rs b/src/distributed_planner/insert_broadcast.rs
index 7fb72cf..398b79b 100644
--- a/src/distributed_planner/insert_broadcast.rs
+++ b/src/distributed_planner/insert_broadcast.rs
@@ -133,17 +133,17 @@ pub(super) fn insert_broadcast_execs(
             return Ok(Transformed::no(node));
         };
 
-        let (broadcast_input, coalesce_fetch) = build_child
-            .downcast_ref::<CoalescePartitionsExec>()
-            .map_or_else(
-                || (Arc::clone(build_child), None),
-                |coalesce| (Arc::clone(coalesce.input()), coalesce.fetch()),
-            );
+        // A limited build side is limited below the broadcast: every consumer task needs to see the
+        // same rows, and each of them could pick different ones.
+        let broadcast_input = match build_child.downcast_ref::<CoalescePartitionsExec>() {
+            Some(coalesce) if coalesce.fetch().is_none() => Arc::clone(coalesce.input()),
+            _ => Arc::clone(build_child),
+        };
 
         // consumer_task_count=1 is a placeholder and will be corrected during optimizer rule.
         let broadcast: Arc<dyn ExecutionPlan> = Arc::new(BroadcastExec::new(broadcast_input, 1));
         let new_build_child: Arc<dyn ExecutionPlan> =
-            Arc::new(CoalescePartitionsExec::new(broadcast).with_fetch(coalesce_fetch));
+            Arc::new(CoalescePartitionsExec::new(broadcast));
 
         let mut new_children: Vec<Arc<dyn ExecutionPlan>> = children.into_iter().cloned().collect();
         new_children[0] = new_build_child;
-- 
2.43.0


From 7ba1dc94f1430f283027827a6c17aa36e11ded76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 24/33] fix: nodes that need all rows, or all rows of a key, in
 one partition are not split over tasks

---
 .../inject_network_boundaries.rs              | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3414350..3fb5251 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -14,7 +14,7 @@ use crate::{
 use async_trait::async_trait;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRecursion};
 use datafusion::common::{HashMap, JoinType, Result, plan_err};
-use datafusion::physical_expr::Partitioning;
+use datafusion::physical_expr::{Distribution, Partitioning};
 use datafusion::physical_plan::coalesce_partitions::CoalescePartitionsExec;
 use datafusion::physical_plan::execution_plan::CardinalityEffect;
 use datafusion::physical_plan::joins::{
@@ -217,6 +217,44 @@ impl<'a> InjectNetworkBoundaryContext<'a> {
     }
 }
 
+/// Whether `plan` relies on one of its children gathering all the rows, or all the rows with the same
+/// keys, in a lone partition. Every task has its own partitions, so that does not hold for a child that
+/// several tasks execute, unless a network boundary of the same stage brings those rows together.
+fn needs_lone_partition(
+    plan: &Arc<dyn ExecutionPlan>,
+    processed_children: &[Arc<dyn ExecutionPlan>],
+) -> bool {
+    plan.input_distribution_requirements()
+        .into_per_child()
+        .into_iter()
+        .zip(plan.children())
+        .zip(processed_children)
+        .any(|((distribution, child), processed)| match distribution {
+            Distribution::UnspecifiedDistribution => false,
+            Distribution::SinglePartition => !reads_broadcast(processed),
+            _ => has_lone_partition(child) && !reads_shuffle(processed),
+        })
+}
+
+fn has_lone_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    plan.properties().partitioning.partition_count() == 1
+}
+
+fn reads_broadcast(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    plan.is::<CoalescePartitionsExec>()
+        && plan
+            .children()
+            .into_iter()
+            .all(|child| child.is::<NetworkBroadcastExec>())
+}
+
+fn reads_shuffle(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    if plan.is_network_boundary() {
+        return plan.is::<NetworkShuffleExec>();
+    }
+    plan.children().into_iter().any(reads_shuffle)
+}
+
 /// Identity key for a plan node. The pointer is only used as a hash-map key, never dereferenced,
 /// so casting it to `usize` is safe and makes the key `Send + Sync`.
 fn plan_ptr_key(plan: &Arc<dyn ExecutionPlan>) -> usize {
@@ -301,6 +339,9 @@ async fn _inject_network_boundaries(
         // broadcast (it emits only pair rows), so it is only restricted to a single task when
         // broadcasts are unavailable.
         Maximum(1)
+    } else if needs_lone_partition(&plan, &processed_children) {
+        // The single partition that this node relies on would become one partition per task.
+        Maximum(1)
     } else {
         let mut task_count = desired_task_count.unwrap_or(Desired(1));
         // The task count for this plan is decided by the biggest task count from the children; unless
-- 
2.43.0


From 531836cd261d5daf381f2f41a04663705272bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 25/33] fix: a limit over a lone partition is not applied once
 per task

---
 src/distributed_planner/inject_network_boundaries.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/distributed_planner/inject_network_boundaries.rs b/src/distributed_planner/inject_network_boundaries.rs
index 3fb5251..b80e10f 100644
--- a/src/distributed_planner/inject_network_boundaries.rs
+++ b/src/distributed_planner/inject_network_boundaries.rs
@@ -217,6 +217,12 @@ impl<'a> InjectNetworkBoundaryContext<'a> {
     }
 }
 
+/// Whether `plan` stops after some number of rows of its only partition. Every task has its own
+/// partition, so executing it in several tasks yields that many rows once per task.
+fn limits_lone_partition(plan: &Arc<dyn ExecutionPlan>) -> bool {
+    plan.fetch().is_some() && has_lone_partition(plan)
+}
+
 /// Whether `plan` relies on one of its children gathering all the rows, or all the rows with the same
 /// keys, in a lone partition. Every task has its own partitions, so that does not hold for a child that
 /// several tasks execute, unless a network boundary of the same stage brings those rows together.
@@ -292,7 +298,10 @@ async fn _inject_network_boundaries(
         .transpose()?
         .map(|v| v.task_count);
 
-    let task_count = if plan.children().is_empty() {
+    let task_count = if limits_lone_partition(&plan) {
+        // The rows that the limit lets through would be multiplied by the number of tasks.
+        Maximum(1)
+    } else if plan.children().is_empty() {
         // This is a leaf node, maybe a DataSourceExec, or maybe something else custom from the user.
         // If we could not determine how many tasks this leaf node should run on, we need to assume
         // it cannot be distributed and use just 1 task.
-- 
2.43.0


From fff1cb566bcbee1eb25ff29821292c071aff9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:04 +0000
Subject: [PATCH 26/33] fix: a request for a reversed or huge range of
 partitions is rejected

---
 src/worker/impl_execute_task.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/worker/impl_execute_task.rs b/src/worker/impl_execute_task.rs
index 1c62fc1..a069777 100644
--- a/src/worker/impl_execute_task.rs
+++ b/src/worker/impl_execute_task.rs
@@ -41,9 +41,13 @@ impl Worker {
 
         // Execute all the requested partitions at once, and collect all the streams so that they
         // can be merged into a single one at the end of this function.
-        let n_streams = request.target_partition_end - request.target_partition_start;
-        let mut streams = Vec::with_capacity(n_streams);
-        for partition in request.target_partition_start..request.target_partition_end {
+        let (start, end) = (request.target_partition_start, request.target_partition_end);
+        if start > end {
+            return exec_err!("invalid partition range {start}..{end}");
+        }
+        // The range comes from the network, so it's not trusted for allocating memory.
+        let mut streams = Vec::with_capacity((end - start).min(partition_count));
+        for partition in start..end {
             if partition >= partition_count {
                 return exec_err!(
                     "partition {partition} not available. The head plan {plan_name} of the stage just has {partition_count} partitions"
-- 
2.43.0


From 5bb8934afb9f2b491f48d0591168dd799a7d66f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:03 +0000
Subject: [PATCH 27/33] fix: batches that precede an error of a sampled stream
 are not lost

---
 src/execution_plans/sampler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/execution_plans/sampler.rs b/src/execution_plans/sampler.rs
index 71b7243..6831f12 100644
--- a/src/execution_plans/sampler.rs
+++ b/src/execution_plans/sampler.rs
@@ -20,7 +20,7 @@ use datafusion::physical_plan::{
     DisplayAs, DisplayFormatType, ExecutionPlan, ExecutionPlanProperties, PlanProperties,
 };
 use futures::stream::FusedStream;
-use futures::{Stream, StreamExt, TryFutureExt};
+use futures::{Stream, StreamExt, TryFutureExt, stream};
 use std::collections::VecDeque;
 use std::fmt::{Debug, Formatter};
 use std::pin::Pin;
@@ -248,7 +248,7 @@ impl PartitionSampler {
             // First, read at once all the RecordBatches that are ready to be yielded synchronously.
             // Some downstream nodes will accumulate data in-memory, and will then yield several
             // RecordBatches at once synchronously (without Poll::Pending gaps in between).
-            let Some(batches) = (&mut input_stream)
+            let Some(mut batches) = (&mut input_stream)
                 .ready_chunks(READY_CHUNK_LIMIT)
                 .next()
                 .await
@@ -261,6 +261,11 @@ impl PartitionSampler {
             };
             let _guard = elapsed_compute.timer();
 
+            // The batches before the first error can be peeked. The error and anything that comes
+            // after it must reach the consumer too, but only once those batches were read.
+            let n_ok = batches.iter().take_while(|batch| batch.is_ok()).count();
+            let rest = batches.split_off(n_ok);
+
             peek.reserve(batches.len());
             first_batch_at.get_or_init(Instant::now);
             for batch in batches {
@@ -269,10 +274,10 @@ impl PartitionSampler {
             // If the input stream is already terminated, every batch it will ever produce is now in
             // `peek`, so this partition has reached EOS and its `rows_ready` / `bytes_ready` are
             // final rather than a partial snapshot.
-            reporter.load_info.reached_eos = input_stream.is_terminated();
+            reporter.load_info.reached_eos = rest.is_empty() && input_stream.is_terminated();
             reporter.report(&peek);
 
-            Ok(peek.chain(input_stream).boxed())
+            Ok(peek.chain(stream::iter(rest)).chain(input_stream).boxed())
         });
 
         let stream = async move {
-- 
2.43.0


From 05835cc0849016a4c80f559ab99f71bd642b0f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:48 +0000
Subject: [PATCH 28/33] fix: a partition abandoned with messages in its queue
 does not starve its siblings

The bytes of messages queued for a partition were only released when the messages were
consumed. When the receiver of a partition was dropped with messages in its queue, their
bytes stayed in the reservation, and once they reached the buffer budget the demux task
waited forever: the other partitions of the connection never ended.
---
 src/protocol/grpc/worker_client.rs | 57 ++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/src/protocol/grpc/worker_client.rs b/src/protocol/grpc/worker_client.rs
index 060d8e8..ea7f5ee 100644
--- a/src/protocol/grpc/worker_client.rs
+++ b/src/protocol/grpc/worker_client.rs
@@ -22,7 +22,7 @@ use datafusion::common::instant::Instant;
 use datafusion::common::runtime::SpawnedTask;
 use datafusion::common::{DataFusionError, Result};
 use datafusion::execution::TaskContext;
-use datafusion::execution::memory_pool::MemoryConsumer;
+use datafusion::execution::memory_pool::{MemoryConsumer, MemoryReservation};
 use datafusion::physical_expr_common::metrics::{Count, Label, MetricBuilder, MetricValue, Time};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::stream::BoxStream;
@@ -100,7 +100,6 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
         // for them in the memory pool.
         let memory_reservation =
             Arc::new(MemoryConsumer::new("WorkerConnection").register(ctx.memory_pool()));
-        let memory_reservation_clone = Arc::clone(&memory_reservation);
 
         // Track the maximum memory used to buffer recieved messages.
         let mut curr_max_mem = 0;
@@ -138,8 +137,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             per_partition_rx.push(rx);
         }
 
-        let mem_available_notify = Arc::new(Notify::new());
-        let mem_available_notify_for_task = Arc::clone(&mem_available_notify);
+        let mem_available_notify_for_task = Arc::new(Notify::new());
 
         let first_poll_notify = Arc::new(Notify::new());
         let first_poll_notify_for_task = Arc::clone(&first_poll_notify);
@@ -252,7 +250,7 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                 // memory reservation means releasing the memory from the pool for that specific
                 // message
                 let size = flight_data.encoded_len();
-                memory_reservation.grow(size);
+                let buffered = BufferedBytes::new(&memory_reservation, &mem_available_notify_for_task, size);
 
                 // Update memory related metrics.
                 msg_count.add(1);
@@ -263,12 +261,11 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
                     max_mem_used.set(curr_max_mem);
                 }
 
-                if o_tx.send(Ok((flight_data, flight_metadata))).is_err() {
+                if o_tx.send(Ok((flight_data, flight_metadata, buffered))).is_err() {
                     // The receiver for this partition was dropped (e.g. a hash join partition
                     // completed early without consuming its probe side). Don't exit: other
                     // partitions multiplexed over the same gRPC stream still need their data.
-                    // Undo the memory reservation that was grown for this dropped batch.
-                    memory_reservation.shrink(size);
+                    // The memory reserved for this message was released with it.
                     continue;
                 };
             }
@@ -290,12 +287,10 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
             .flatten_stream();
 
             let stream = stream.map_err(|err| FlightError::Tonic(Box::new(err)));
-            let reservation = Arc::clone(&memory_reservation_clone);
-            let mem_available_notify = Arc::clone(&mem_available_notify);
-            let stream = stream.map_ok(move |(data, _meta)| {
-                reservation.shrink(data.encoded_len());
-                // Wake the demux task in case it is blocked on the byte budget.
-                mem_available_notify.notify_one();
+            let stream = stream.map_ok(move |(data, _meta, buffered)| {
+                // Release the memory of this message, and wake the demux task in case it is blocked
+                // on the byte budget.
+                drop(buffered);
                 let _ = &task; // <- keep the task that polls data from the network alive.
                 data
             });
@@ -334,7 +329,39 @@ impl WorkerChannel for pb::worker_service_client::WorkerServiceClient<BoxCloneSy
     }
 }
 
-type WorkerMsg = Result<(FlightData, FlightAppMetadata), Status>;
+type WorkerMsg = Result<(FlightData, FlightAppMetadata, BufferedBytes), Status>;
+
+/// Memory held by one message while it sits in a per-partition queue. It travels with the message, so
+/// the memory is released and the demux task woken when the message is consumed, and also when it is
+/// thrown away because its receiver was dropped: otherwise, a partition abandoned with messages in its
+/// queue would take up the byte budget of its siblings forever.
+struct BufferedBytes {
+    reservation: Arc<MemoryReservation>,
+    mem_available_notify: Arc<Notify>,
+    size: usize,
+}
+
+impl BufferedBytes {
+    fn new(
+        reservation: &Arc<MemoryReservation>,
+        mem_available_notify: &Arc<Notify>,
+        size: usize,
+    ) -> Self {
+        reservation.grow(size);
+        Self {
+            reservation: Arc::clone(reservation),
+            mem_available_notify: Arc::clone(mem_available_notify),
+            size,
+        }
+    }
+}
+
+impl Drop for BufferedBytes {
+    fn drop(&mut self) {
+        self.reservation.shrink(self.size);
+        self.mem_available_notify.notify_one();
+    }
+}
 
 struct NetworkLatencyMetrics {
     metrics: ExecutionPlanMetricsSet,
-- 
2.43.0


From f98426ae98fcdda277f8f7730c1d2fc718dbfdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 29/33] fix: a broadcast to more consumers than can be counted
 is refused instead of overflowing

---
 src/codec/distributed_codec.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index d91ad89..eb00c3c 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -184,9 +184,16 @@ impl PhysicalExtensionCodec for DistributedCodec {
                 }
 
                 let child = inputs.first().unwrap();
+                let consumer_task_count = consumer_task_count as usize;
+                let child_partitions = child.properties().output_partitioning().partition_count();
+                if child_partitions.checked_mul(consumer_task_count).is_none() {
+                    return Err(proto_error(format!(
+                        "BroadcastExec cannot send {child_partitions} partitions to {consumer_task_count} consumer tasks"
+                    )));
+                }
                 Ok(Arc::new(BroadcastExec::new(
                     child.clone(),
-                    consumer_task_count as usize,
+                    consumer_task_count,
                 )))
             }
             DistributedExecNode::ChildrenIsolatorUnion(ChildrenIsolatorUnionExecProto {
-- 
2.43.0


From b8533b82c3368b39b903bd23fabf0ffa32d8ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 30/33] fix: a union that refers to a child it does not have is
 refused when decoded

---
 src/codec/distributed_codec.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index eb00c3c..f464d39 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -201,6 +201,18 @@ impl PhysicalExtensionCodec for DistributedCodec {
                 task_idx_map,
                 child_weights,
             }) => {
+                for entry in &task_idx_map {
+                    for child_ctx in &entry.child_ctx {
+                        if child_ctx.child_idx >= inputs.len() as u64 {
+                            return Err(proto_error(format!(
+                                "ChildrenIsolatorUnionExec refers to child {}, but it has {} children",
+                                child_ctx.child_idx,
+                                inputs.len()
+                            )));
+                        }
+                    }
+                }
+
                 // Building a UnionExec just to get the properties out of it is not the most
                 // efficient thing to do. However, it's the easiest way of getting the properties
                 // for the ChildrenIsolatorUnionExec without copy-pasting in this project
-- 
2.43.0


From 6076068ca70d83c42105f1431a69d27b707d58f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 31/33] fix: a plan message with the reserved field 3 is
 refused instead of panicking

---
 src/codec/distributed_codec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/distributed_codec.rs b/src/codec/distributed_codec.rs
index f464d39..5e73e0e 100644
--- a/src/codec/distributed_codec.rs
+++ b/src/codec/distributed_codec.rs
@@ -418,7 +418,7 @@ pub struct ExecutionTaskProto {
 
 #[derive(Clone, PartialEq, ::prost::Message)]
 pub struct DistributedExecProto {
-    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 3, 4, 5, 6, 7")]
+    #[prost(oneof = "DistributedExecNode", tags = "1, 2, 4, 5, 6, 7")]
     pub node: Option<DistributedExecNode>,
 }
 
-- 
2.43.0


From 9a9f00e983c8a63e59287b311c32c3b5fcc90246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:14 +0000
Subject: [PATCH 32/33] fix: the leaf rows of a running stage were added with
 overflow

---
 src/coordinator/prepare_dynamic_plan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/prepare_dynamic_plan.rs b/src/coordinator/prepare_dynamic_plan.rs
index e2f5a3e..3003583 100644
--- a/src/coordinator/prepare_dynamic_plan.rs
+++ b/src/coordinator/prepare_dynamic_plan.rs
@@ -349,13 +349,13 @@ async fn gather_runtime_statistics(
 }
 
 fn estimated_driver_path_leaf_rows(plan: &Arc<dyn ExecutionPlan>) -> Option<usize> {
-    let mut total_rows = None;
+    let mut total_rows: Option<usize> = None;
     let _ = plan.apply_driver_path(|plan| {
         if plan.children().is_empty() {
             let stats = StatisticsContext::new().compute(plan.as_ref(), &StatisticsArgs::new())?;
             if let Some(num_rows) = stats.num_rows.get_value() {
                 if let Some(total_rows) = &mut total_rows {
-                    *total_rows += *num_rows;
+                    *total_rows = total_rows.saturating_add(*num_rows);
                 } else {
                     total_rows = Some(*num_rows);
                 };
-- 
2.43.0


From dcaa9350efb1aab8d72fd6edaaaee03fbdcb5a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:28 +0000
Subject: [PATCH 33/33] fix: a limited query waited for work unit feeds that
 nobody reads any more

---
 src/coordinator/query_coordinator.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/query_coordinator.rs b/src/coordinator/query_coordinator.rs
index 2cd3f8a..03f8cb5 100644
--- a/src/coordinator/query_coordinator.rs
+++ b/src/coordinator/query_coordinator.rs
@@ -315,8 +315,12 @@ impl<'a> StageCoordinator<'a> {
                 feeds.push(feed);
             }
             let interleaved_feed = futures::stream::select_all(feeds);
-            let mut chunked_interleaved_feed =
-                interleaved_feed.ready_chunks(WORK_UNIT_FEED_CHUNK_SIZE);
+            // Once the query ended (e.g. a limit was reached) nobody reads work units anymore, so do
+            // not wait for the feeds that still have some.
+            let query_ended = Arc::clone(self.end_stream_notifier).notified_owned();
+            let mut chunked_interleaved_feed = interleaved_feed
+                .ready_chunks(WORK_UNIT_FEED_CHUNK_SIZE)
+                .take_until(Box::pin(query_ended));
 
             let id = wuf.id();
             let tx = tx.clone();
-- 
2.43.0

