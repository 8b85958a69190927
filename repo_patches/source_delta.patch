From e1465b7c779d808918cf99d7e212204f630d9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 01/18] fix: ignore unsatisfiable inner quorum sets in
 symmetric clusters

The closed-form blocking and splitting sets of a symmetric cluster counted inner
quorum sets that nothing satisfies (e.g., organizations that are completely
dead) as regular members, which produced wrong minimal blocking and splitting
sets.
---
 src/analysis/symmetric_clusters.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/analysis/symmetric_clusters.rs b/src/analysis/symmetric_clusters.rs
index 7787173..030f2a6 100644
--- a/src/analysis/symmetric_clusters.rs
+++ b/src/analysis/symmetric_clusters.rs
@@ -45,12 +45,30 @@ pub(crate) fn find_symmetric_cluster_in_consensus_cluster(
     if !symmetric_clusters.is_empty() {
         assert!(symmetric_clusters.len() == 1, "More than one symmetric clusters found - perhaps input wasn't a consensus cluster, i.e., not a strongly-connected component?");
         assert!(symmetric_clusters[0].contained_nodes() == *cluster);
-        Some(symmetric_clusters.into_iter().next().unwrap())
+        let symmetric_cluster = symmetric_clusters.into_iter().next().unwrap();
+        Some(symmetric_cluster.without_unsatisfiable_inner_quorum_sets())
     } else {
         None
     }
 }
 
+impl QuorumSet {
+    /// Inner quorum sets that cannot be satisfied by any node set never contribute to a quorum
+    /// slice. Without them, the quorum set is satisfied by exactly the same node sets.
+    fn without_unsatisfiable_inner_quorum_sets(&self) -> Self {
+        QuorumSet {
+            threshold: self.threshold,
+            validators: self.validators.clone(),
+            inner_quorum_sets: self
+                .inner_quorum_sets
+                .iter()
+                .filter(|q| q.is_quorum_slice(&q.contained_nodes()))
+                .map(|q| q.without_unsatisfiable_inner_quorum_sets())
+                .collect(),
+        }
+    }
+}
+
 pub(crate) fn find_symmetric_clusters_in_node_set(
     nodes: &NodeIdSet,
     fbas: &Fbas,
-- 
2.43.0


From a378430da7d5903e3e4918eb7c4d80dd2afb71ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 02/18] fix: minimal sets of symmetric clusters that list a
 node more than once

If a symmetric cluster's quorum set contains duplicates, minimal quorums were
reported more than once, minimal blocking sets were filtered against the wrong
node set and the closed form for splitting sets doesn't apply at all.
---
 src/analysis/blocking_sets.rs  | 11 +++--------
 src/analysis/quorums.rs        |  6 +++---
 src/analysis/sets.rs           | 24 ------------------------
 src/analysis/splitting_sets.rs |  4 +++-
 4 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/analysis/blocking_sets.rs b/src/analysis/blocking_sets.rs
index e935948..006ddda 100644
--- a/src/analysis/blocking_sets.rs
+++ b/src/analysis/blocking_sets.rs
@@ -20,7 +20,7 @@ fn minimal_blocking_sets_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas)
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting blocking sets...");
-            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets(fbas));
+            found_blocking_sets_per_cluster.push(symmetric_cluster.to_minimal_blocking_sets());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -115,10 +115,10 @@ fn minimal_blocking_sets_finder_step(
 
 impl QuorumSet {
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal blocking sets of the induced FBAS.
-    fn to_minimal_blocking_sets(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_blocking_sets(&self) -> Vec<NodeIdSet> {
         let blocking_sets = self.to_blocking_sets();
         if self.contains_duplicates() {
-            remove_non_minimal_x(blocking_sets, is_minimal_for_blocking_set, fbas)
+            remove_non_minimal_node_sets(blocking_sets)
         } else {
             blocking_sets
         }
@@ -165,11 +165,6 @@ impl QuorumSet {
     }
 }
 
-fn is_minimal_for_blocking_set(blocking_set: &NodeIdSet, fbas: &Fbas) -> bool {
-    let mut blocked_set = fbas.all_nodes();
-    blocked_set.difference_with(&blocking_set);
-    is_minimal_for_blocking_set_with_precomputed_blocked_set(blocking_set, &blocking_set, fbas)
-}
 fn is_minimal_for_blocking_set_with_precomputed_blocked_set(
     blocking_set: &NodeIdSet,
     blocked_set: &NodeIdSet,
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 0c990bd..9921fee 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -33,7 +33,7 @@ fn minimal_quorums_finder(consensus_clusters: Vec<NodeIdSet>, fbas: &Fbas) -> Ve
 
         if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
             debug!("Cluster contains a symmetric quorum cluster! Extracting quorums...");
-            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums(fbas));
+            found_quorums.append(&mut symmetric_cluster.to_minimal_quorums());
         } else {
             debug!("Sorting nodes by rank...");
             let sorted_nodes = sort_by_rank(nodes.into_iter().collect(), fbas);
@@ -96,10 +96,10 @@ fn minimal_quorums_finder_step(
 
 impl QuorumSet {
     /// Makes sense if the quorum set represents a symmetric quorum cluster...
-    fn to_minimal_quorums(&self, fbas: &Fbas) -> Vec<NodeIdSet> {
+    fn to_minimal_quorums(&self) -> Vec<NodeIdSet> {
         let quorums = self.to_quorum_slices();
         if self.contains_duplicates() {
-            remove_non_minimal_x(quorums, is_minimal_for_quorum, fbas)
+            remove_non_minimal_node_sets(quorums)
         } else {
             quorums
         }
diff --git a/src/analysis/sets.rs b/src/analysis/sets.rs
index 60e40f1..8fcadda 100644
--- a/src/analysis/sets.rs
+++ b/src/analysis/sets.rs
@@ -98,30 +98,6 @@ pub fn remove_non_minimal_node_sets(mut node_sets: Vec<NodeIdSet>) -> Vec<NodeId
     remove_non_minimal_node_sets_from_buckets(buckets_by_len)
 }
 
-pub(crate) fn remove_non_minimal_x<F>(
-    node_sets: Vec<NodeIdSet>,
-    is_minimal: F,
-    fbas: &Fbas,
-) -> Vec<NodeIdSet>
-where
-    F: Fn(&NodeIdSet, &Fbas) -> bool,
-{
-    let mut minimal_x = vec![];
-
-    debug!("Filtering out non-minimal node sets...");
-    for (i, node_set) in node_sets.into_iter().enumerate() {
-        if i % 100_000 == 0 {
-            debug!("...at set {}; {} minimal sets", i, minimal_x.len());
-        }
-        if is_minimal(&node_set, fbas) {
-            minimal_x.push(node_set);
-        }
-    }
-    debug!("Filtering done.");
-    debug_assert!(is_set_of_minimal_node_sets(&minimal_x));
-    minimal_x
-}
-
 pub fn is_set_of_minimal_node_sets(node_sets: &[NodeIdSet]) -> bool {
     node_sets.iter().enumerate().all(|(i, x)| {
         node_sets
diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 19460df..dd6307b 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -25,7 +25,9 @@ fn minimal_splitting_sets_finder(
     for (i, nodes) in consensus_clusters.into_iter().enumerate() {
         debug!("Finding minimal splitting sets in cluster {}...", i);
 
-        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas) {
+        if let Some(symmetric_cluster) = find_symmetric_cluster_in_consensus_cluster(&nodes, fbas)
+            .filter(|symmetric_cluster| !symmetric_cluster.contains_duplicates())
+        {
             debug!("Cluster contains a symmetric quorum cluster! Extracting splitting sets...");
             found_splitting_sets.append(&mut symmetric_cluster.to_minimal_splitting_sets());
         } else {
-- 
2.43.0


From 2baa0a83e57ba9b135a31419b26bc64d4014190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 03/18] fix: minimal splitting sets of nested symmetric
 clusters

The check for quorum sets with only one slice must only be done for the cluster
as a whole: an inner quorum set with only one slice still has to be part of a
splitting set. Inner quorum sets that have disjoint slices don't need to be
represented in a splitting set at all.
---
 src/analysis/splitting_sets.rs | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index dd6307b..7c5e493 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -155,16 +155,14 @@ impl QuorumSet {
         }
     }
     /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS.
+    /// Assumes that no node is contained more than once.
     fn to_minimal_splitting_sets(&self) -> Vec<NodeIdSet> {
-        let splitting_sets = self.to_splitting_sets();
-        if self.contains_duplicates() {
-            remove_non_minimal_node_sets(splitting_sets)
-        } else {
-            splitting_sets
-        }
+        let mut splitting_sets = self.to_splitting_sets();
+        // check to see if we aren't really a 1-quorum quorum set (or split without any faulty nodes)
+        splitting_sets.retain(|s| !s.is_empty() && !self.is_quorum_slice(s));
+        splitting_sets
     }
-    /// If `self` represents a symmetric quorum cluster, this function returns all minimal splitting sets of the induced FBAS,
-    /// but perhaps also a few extra...
+    /// Minimal intersections of two (not necessarily different) minimal quorum slices for `self`.
     fn to_splitting_sets(&self) -> Vec<NodeIdSet> {
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
@@ -177,9 +175,16 @@ impl QuorumSet {
                 .iter()
                 .map(|qset| qset.to_splitting_sets()),
         );
-        let potential_splitting_sets: Vec<NodeIdSet> = subslice_groups
+        // inner quorum sets that are already split contribute to any split at no cost
+        let number_of_groups = subslice_groups.len();
+        subslice_groups.retain(|group| !group.contains(&bitset![]));
+        let already_split = number_of_groups - subslice_groups.len();
+        if self.splitting_threshold() <= already_split {
+            return vec![bitset![]];
+        }
+        subslice_groups
             .into_iter()
-            .combinations(self.splitting_threshold())
+            .combinations(self.splitting_threshold() - already_split)
             .map(|group_combination| {
                 group_combination
                     .into_iter()
@@ -194,14 +199,7 @@ impl QuorumSet {
                     })
                     .collect()
             })
-            .concat();
-        // check to see if we aren't really a 1-quorum quorum set
-        if potential_splitting_sets.len() == 1 && self.is_quorum_slice(&potential_splitting_sets[0])
-        {
-            vec![]
-        } else {
-            potential_splitting_sets
-        }
+            .concat()
     }
     fn splitting_threshold(&self) -> usize {
         if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-- 
2.43.0


From db4b9a4f1d18400fa7cad8ebcb49ff184e117195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 04/18] fix: memory exhaustion and overflows on very large
 thresholds

Unsatisfiable quorum sets in the wild use thresholds such as 9007199254740991.
---
 src/analysis/splitting_sets.rs | 9 ++++-----
 src/core_types/quorum_set.rs   | 4 ++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/analysis/splitting_sets.rs b/src/analysis/splitting_sets.rs
index 7c5e493..ac1e2b7 100644
--- a/src/analysis/splitting_sets.rs
+++ b/src/analysis/splitting_sets.rs
@@ -202,11 +202,10 @@ impl QuorumSet {
             .concat()
     }
     fn splitting_threshold(&self) -> usize {
-        if 2 * self.threshold > (self.validators.len() + self.inner_quorum_sets.len()) {
-            2 * self.threshold - (self.validators.len() + self.inner_quorum_sets.len())
-        } else {
-            0
-        }
+        // thresholds of unsatisfiable quorum sets can be arbitrarily large
+        self.threshold
+            .saturating_mul(2)
+            .saturating_sub(self.validators.len() + self.inner_quorum_sets.len())
     }
 }
 
diff --git a/src/core_types/quorum_set.rs b/src/core_types/quorum_set.rs
index ac834de..8f3fa8a 100644
--- a/src/core_types/quorum_set.rs
+++ b/src/core_types/quorum_set.rs
@@ -50,6 +50,10 @@ impl QuorumSet {
     /// Each valid quorum slice for this quorum set is a superset (i.e., equal to or a proper superset of)
     /// of at least one of the sets returned by this function.
     pub fn to_quorum_slices(&self) -> Vec<NodeIdSet> {
+        if self.threshold > self.validators.len() + self.inner_quorum_sets.len() {
+            // unsatisfiable; don't let `combinations` allocate memory based on `threshold`
+            return vec![];
+        }
         let mut subslice_groups: Vec<Vec<NodeIdSet>> = vec![];
         subslice_groups.extend(
             self.validators
-- 
2.43.0


From d771b7ac4b80512f5721f5b51000ddb144470245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 05/18] fix: alternative quorum intersection check for FBASs
 without quorums

It panicked instead of reporting (like the regular check) that there is no
quorum intersection.
---
 src/analysis/front_end.rs | 5 ++++-
 src/analysis/quorums.rs   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/front_end.rs b/src/analysis/front_end.rs
index ee7e45e..1fb99f3 100644
--- a/src/analysis/front_end.rs
+++ b/src/analysis/front_end.rs
@@ -61,7 +61,10 @@ impl Analysis {
     pub fn has_quorum_intersection_via_alternative_check(
         &self,
     ) -> (bool, Option<NodeIdSetVecResult>) {
-        if let Some(quorums) = find_nonintersecting_quorums(&self.fbas_shrunken.borrow()) {
+        if self.fbas_shrunken.borrow().number_of_nodes() == 0 {
+            // no quorums at all - consistently with the regular check
+            (false, None)
+        } else if let Some(quorums) = find_nonintersecting_quorums(&self.fbas_shrunken.borrow()) {
             assert!(quorums[0].is_disjoint(&quorums[1]));
             (
                 false,
diff --git a/src/analysis/quorums.rs b/src/analysis/quorums.rs
index 9921fee..e0c2fc4 100644
--- a/src/analysis/quorums.rs
+++ b/src/analysis/quorums.rs
@@ -140,6 +140,8 @@ fn nonintersecting_quorums_finder(
             assert!(intersecting_quorums.iter().all(|x| fbas.is_quorum(x)));
             assert!(intersecting_quorums[0].is_disjoint(&intersecting_quorums[1]));
             intersecting_quorums.to_vec()
+        } else if available.is_empty() {
+            vec![]
         } else {
             assert!(fbas.is_quorum(&available));
             vec![available.clone()]
-- 
2.43.0


From 13d365ec0cfefb271efe20a5416adfb061b3337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 06/18] fix: panics on empty grouping names and names that end
 with a multibyte character

---
 src/io/groupings.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/groupings.rs b/src/io/groupings.rs
index 59bd877..97020c3 100644
--- a/src/io/groupings.rs
+++ b/src/io/groupings.rs
@@ -167,9 +167,9 @@ impl RawGroupings {
 
 fn remove_special_chars_from_grouping_name(mut name: String) -> String {
     name.retain(|c| c != ',');
-    let mut maybe_fullstop = name.split_off(name.len() - 1);
-    maybe_fullstop.retain(|c| c != '.');
-    name.push_str(&maybe_fullstop);
+    if name.ends_with('.') {
+        name.pop();
+    }
     name
 }
 
-- 
2.43.0


From 2e7cb7bba8025f64382465f9cd88c8e5e6e6c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 07/18] fix: involved nodes of analysis results are original
 node IDs

NodeIdSetVecResult::involved_nodes returned IDs of the internal, shrunken ID space.
---
 src/analysis/results.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index b677109..93fd16b 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -83,7 +83,12 @@ impl NodeIdSetVecResult {
             .collect()
     }
     pub fn involved_nodes(&self) -> NodeIdSet {
-        involved_nodes(&self.node_sets)
+        let involved_nodes = involved_nodes(&self.node_sets);
+        if let Some(unshrink_table) = &self.unshrink_table {
+            unshrink_set(&involved_nodes, unshrink_table)
+        } else {
+            involved_nodes
+        }
     }
     pub fn len(&self) -> usize {
         self.node_sets.len()
-- 
2.43.0


From f2c330daeaffa2f27d66b58dabdfad7c403ad078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:00 +0000
Subject: [PATCH 08/18] fix: merging quorum sets with both validators and inner
 quorum sets

Inner quorum sets of inner quorum sets that also list exactly one validator were
dropped and the threshold of quorum sets that combine validators of one grouping
with inner quorum sets was set to 1.
---
 src/analysis/merge_by_group.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/analysis/merge_by_group.rs b/src/analysis/merge_by_group.rs
index 93aeb3f..ad308cc 100644
--- a/src/analysis/merge_by_group.rs
+++ b/src/analysis/merge_by_group.rs
@@ -36,14 +36,17 @@ impl<'fbas> Groupings<'fbas> {
                 .inner_quorum_sets
                 .into_iter()
                 .map(|q| self.merge_quorum_set(q))
-                .partition(|q| q.validators.len() == 1);
+                .partition(|q| q.validators.len() == 1 && q.inner_quorum_sets.is_empty());
 
         validators.extend(
             new_validator_candidates
                 .into_iter()
                 .map(|q| q.validators[0]),
         );
-        if !validators.is_empty() && validators.iter().all(|&v| v == validators[0]) {
+        if inner_quorum_sets.is_empty()
+            && !validators.is_empty()
+            && validators.iter().all(|&v| v == validators[0])
+        {
             validators = vec![validators[0]];
             threshold = 1;
         }
-- 
2.43.0


From d3653f4b3edde19228793cd5572df1c5c08c1508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 09/18] fix: tiered full mesh graphs with empty tiers

---
 src/simulation/graph.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 1620b63..5470402 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -26,14 +26,15 @@ impl Graph {
     pub fn new_tiered_full_mesh(tier_sizes: &[usize]) -> Self {
         let mut outlinks: Vec<Vec<NodeId>> = vec![vec![]; tier_sizes.iter().sum()];
         let mut higher_tier_node_ids = vec![];
+        let mut i0: usize = 0;
         for tier_size in tier_sizes.iter() {
-            let i0: usize = higher_tier_node_ids.last().map_or(0, |x| x + 1);
             let n = i0.checked_add(*tier_size).unwrap();
             for i in i0..n {
                 outlinks[i].extend_from_slice(&higher_tier_node_ids);
                 outlinks[i].extend((i0..i).chain(i + 1..n));
             }
             higher_tier_node_ids = (i0..n).collect();
+            i0 = n;
         }
         Self::new(outlinks)
     }
-- 
2.43.0


From 1a4cbc3f9c5ee4a21e1cd9532da6272ebe98da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:28 +0000
Subject: [PATCH 10/18] =?UTF-8?q?fix:=20panic=20in=20the=20Barab=C3=A1si?=
 =?UTF-8?q?=E2=80=93Albert=20model=20when=20starting=20from=20a=20single?=
 =?UTF-8?q?=20node?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/simulation/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/graph.rs b/src/simulation/graph.rs
index 5470402..b870582 100644
--- a/src/simulation/graph.rs
+++ b/src/simulation/graph.rs
@@ -69,7 +69,7 @@ impl Graph {
             let mut possible_targets: Vec<NodeId> = (0..i).collect();
             for _ in 0..m {
                 let j = possible_targets
-                    .choose_weighted(&mut rng, |&x| outlinks[x].len())
+                    .choose_weighted(&mut rng, |&x| outlinks[x].len().max(1))
                     .unwrap()
                     .to_owned();
                 connect!(i, j);
-- 
2.43.0


From e2fa9dc4277afecf58803c108614269e3a437ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 11/18] fix: random and global-rank configurators report
 changes truthfully

---
 src/simulation/qsc/graph_based/global_ranking_based.rs | 7 ++++++-
 src/simulation/qsc/random.rs                           | 8 ++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/simulation/qsc/graph_based/global_ranking_based.rs b/src/simulation/qsc/graph_based/global_ranking_based.rs
index 196e1df..d332574 100644
--- a/src/simulation/qsc/graph_based/global_ranking_based.rs
+++ b/src/simulation/qsc/graph_based/global_ranking_based.rs
@@ -45,7 +45,12 @@ impl QuorumSetConfigurator for GlobalRankQsc {
 
             existing_quorum_set.validators = validators;
             existing_quorum_set.threshold = threshold;
-            Change
+
+            if *existing_quorum_set == QuorumSet::new() {
+                NoChange // no node stands out
+            } else {
+                Change
+            }
         } else {
             NoChange
         }
diff --git a/src/simulation/qsc/random.rs b/src/simulation/qsc/random.rs
index ac24100..84ebda2 100644
--- a/src/simulation/qsc/random.rs
+++ b/src/simulation/qsc/random.rs
@@ -27,15 +27,15 @@ impl QuorumSetConfigurator for RandomQsc {
         let existing_quorum_set = &mut fbas.nodes[node_id].quorum_set;
 
         // we add nodes to their own quorum sets, for better comparability with other Qsc
-        if existing_quorum_set.validators.is_empty() {
+        let unconfigured = existing_quorum_set.validators.is_empty();
+        if unconfigured {
             existing_quorum_set.validators = vec![node_id];
         }
 
         let current_quorum_set_size = existing_quorum_set.validators.len();
+        let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
 
-        if current_quorum_set_size < self.desired_quorum_set_size {
-            let target_quorum_set_size = cmp::min(self.desired_quorum_set_size, n);
-
+        if unconfigured || current_quorum_set_size < target_quorum_set_size {
             let threshold = self
                 .desired_threshold
                 .unwrap_or_else(|| calculate_67p_threshold(target_quorum_set_size));
-- 
2.43.0


From 5202fceea5432c5a4d036aa64e5d6099ecece2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:09 +0000
Subject: [PATCH 12/18] fix: a failing update of a results file loses existing
 results

---
 src/bin/bulk_fbas_analyzer.rs          | 9 +++++++++
 src/bin/bulk_performance_experiment.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index df78e56..ec8ebc6 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -363,6 +363,15 @@ fn write_csv(
                 io::ErrorKind::AlreadyExists,
                 "Output file exists, refusing to overwrite.",
             )))
+        } else if overwrite_allowed {
+            // existing results must survive if we don't make it to the end
+            let mut temporary_path = path.clone().into_os_string();
+            temporary_path.push(".tmp");
+            let temporary_path = PathBuf::from(temporary_path);
+            write_csv_to_file(data_points, &temporary_path)?;
+            std::fs::write(path, std::fs::read(&temporary_path)?)?;
+            std::fs::remove_file(&temporary_path)?;
+            Ok(())
         } else {
             write_csv_to_file(data_points, path)
         }
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 46e95b7..3b9b825 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -257,6 +257,15 @@ fn write_csv(
                 io::ErrorKind::AlreadyExists,
                 "Output file exists, refusing to overwrite.",
             )))
+        } else if overwrite_allowed {
+            // existing results must survive if we don't make it to the end
+            let mut temporary_path = path.clone().into_os_string();
+            temporary_path.push(".tmp");
+            let temporary_path = PathBuf::from(temporary_path);
+            write_csv_to_file(data_points, &temporary_path)?;
+            std::fs::write(path, std::fs::read(&temporary_path)?)?;
+            std::fs::remove_file(&temporary_path)?;
+            Ok(())
         } else {
             write_csv_to_file(data_points, path)
         }
-- 
2.43.0


From 8b98c8d3a59e6553cb60d30b3e2de420533ba0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 13/18] fix: compressed AS relationship files are silently read
 in part

---
 src/io/graph.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/io/graph.rs b/src/io/graph.rs
index 7bf6451..11ffddc 100644
--- a/src/io/graph.rs
+++ b/src/io/graph.rs
@@ -1,9 +1,8 @@
 use super::*;
 use crate::simulation::Graph;
 
-use bzip2::read::BzDecoder;
 use bzip2::write;
-use bzip2::Compression;
+use bzip2::{Compression, Decompress, Status};
 use std::cmp::max;
 
 use std::fs;
@@ -97,11 +96,28 @@ fn get_edge_from_as_rel_line(line: &str) -> Option<(NodeId, NodeId, bool)> {
 }
 
 fn read_bz2_file_to_string(path: &Path) -> io::Result<String> {
-    let f = fs::File::open(path)?;
-    let mut decompressor = BzDecoder::new(f);
-    let mut contents = String::new();
-    decompressor.read_to_string(&mut contents)?;
-    Ok(contents)
+    let compressed = fs::read(path)?;
+    let mut remaining = &compressed[..];
+    let mut decompressor = Decompress::new(false);
+    let mut contents = vec![];
+    loop {
+        contents.reserve(1 << 16);
+        let (before_in, before_out) = (decompressor.total_in(), decompressor.total_out());
+        let status = decompressor
+            .decompress_vec(remaining, &mut contents)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        remaining = &remaining[(decompressor.total_in() - before_in) as usize..];
+        if status == Status::StreamEnd {
+            if !remaining.starts_with(b"BZh") {
+                break;
+            }
+            // several streams make up one file
+            decompressor = Decompress::new(false);
+        } else if remaining.is_empty() && decompressor.total_out() == before_out {
+            return Err(io::ErrorKind::UnexpectedEof.into()); // the file is cut short
+        }
+    }
+    String::from_utf8(contents).map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))
 }
 fn read_file_to_string(path: &Path) -> io::Result<String> {
     let mut f = fs::File::open(path)?;
-- 
2.43.0


From f30f6a46a178b059b08628c28c9999cd216eb1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 14/18] fix: a restricted FBAS does not find its nodes by
 public key

---
 src/core_types/shrinking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core_types/shrinking.rs b/src/core_types/shrinking.rs
index 3f9d28b..0acf526 100644
--- a/src/core_types/shrinking.rs
+++ b/src/core_types/shrinking.rs
@@ -96,6 +96,12 @@ impl Fbas {
                 fbas_shrunken.nodes[new_id] = Node::shrunken(&self.nodes[old_id], &shrink_map);
             }
         }
+        fbas_shrunken.pk_to_id = fbas_shrunken
+            .nodes
+            .iter()
+            .enumerate()
+            .map(|(id, node)| (node.public_key.clone(), id))
+            .collect();
         (fbas_shrunken, shrink_manager)
     }
 }
-- 
2.43.0


From f48514a9b5723943708f62694456812c8ae46fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 15/18] fix: an update interrupted while replacing a results
 file loses existing results

---
 src/bin/bulk_fbas_analyzer.rs          | 25 +++++++++++++++++++++++--
 src/bin/bulk_performance_experiment.rs | 25 +++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index ec8ebc6..f527b1c 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -9,7 +9,7 @@ use structopt::StructOpt;
 
 use std::collections::BTreeMap;
 use std::error::Error;
-use std::io;
+use std::io::{self, Seek, Write};
 use std::path::{Path, PathBuf};
 
 use csv::{Reader, Writer};
@@ -369,7 +369,7 @@ fn write_csv(
             temporary_path.push(".tmp");
             let temporary_path = PathBuf::from(temporary_path);
             write_csv_to_file(data_points, &temporary_path)?;
-            std::fs::write(path, std::fs::read(&temporary_path)?)?;
+            replace_contents(path, std::fs::read(&temporary_path)?)?;
             std::fs::remove_file(&temporary_path)?;
             Ok(())
         } else {
@@ -477,6 +477,27 @@ fn write_csv_to_file(
     let writer = Writer::from_path(path)?;
     write_csv_via_writer(data_points, writer)
 }
+/// Whenever this gets interrupted, the file contains either all old or all new rows (perhaps
+/// followed by empty lines, which don't matter).
+fn replace_contents(path: &Path, mut contents: Vec<u8>) -> io::Result<()> {
+    let mut file = std::fs::OpenOptions::new().write(true).open(path)?;
+    let old_len = file.metadata()?.len() as usize;
+    let new_len = contents.len();
+    if new_len > old_len {
+        // make sure that there is enough space before touching any existing row
+        let padding = vec![b'\n'; new_len - old_len];
+        file.seek(io::SeekFrom::Start(old_len as u64))?;
+        if let Err(e) = file.write_all(&padding) {
+            file.set_len(old_len as u64)?;
+            return Err(e);
+        }
+        file.seek(io::SeekFrom::Start(0))?;
+    } else {
+        contents.resize(old_len, b'\n');
+    }
+    file.write_all(&contents)?;
+    file.set_len(new_len as u64)
+}
 fn write_csv_to_stdout(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
 ) -> Result<(), Box<dyn Error>> {
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 3b9b825..2bb4b22 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -8,7 +8,7 @@ use quicli::prelude::*;
 use structopt::StructOpt;
 
 use csv::{Reader, Writer};
-use std::io;
+use std::io::{self, Seek, Write};
 
 use std::error::Error;
 use std::path::{Path, PathBuf};
@@ -263,7 +263,7 @@ fn write_csv(
             temporary_path.push(".tmp");
             let temporary_path = PathBuf::from(temporary_path);
             write_csv_to_file(data_points, &temporary_path)?;
-            std::fs::write(path, std::fs::read(&temporary_path)?)?;
+            replace_contents(path, std::fs::read(&temporary_path)?)?;
             std::fs::remove_file(&temporary_path)?;
             Ok(())
         } else {
@@ -338,6 +338,27 @@ fn write_csv_to_file(
     let writer = Writer::from_path(path)?;
     write_csv_via_writer(data_points, writer)
 }
+/// Whenever this gets interrupted, the file contains either all old or all new rows (perhaps
+/// followed by empty lines, which don't matter).
+fn replace_contents(path: &Path, mut contents: Vec<u8>) -> io::Result<()> {
+    let mut file = std::fs::OpenOptions::new().write(true).open(path)?;
+    let old_len = file.metadata()?.len() as usize;
+    let new_len = contents.len();
+    if new_len > old_len {
+        // make sure that there is enough space before touching any existing row
+        let padding = vec![b'\n'; new_len - old_len];
+        file.seek(io::SeekFrom::Start(old_len as u64))?;
+        if let Err(e) = file.write_all(&padding) {
+            file.set_len(old_len as u64)?;
+            return Err(e);
+        }
+        file.seek(io::SeekFrom::Start(0))?;
+    } else {
+        contents.resize(old_len, b'\n');
+    }
+    file.write_all(&contents)?;
+    file.set_len(new_len as u64)
+}
 fn write_csv_to_stdout(
     data_points: impl IntoIterator<Item = impl serde::Serialize>,
 ) -> Result<(), Box<dyn Error>> {
-- 
2.43.0


From c4332adc1a3198dd3a032fa55c530204c58423cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 16/18] fix: an update drops existing results that share a
 label

---
 src/bin/bulk_fbas_analyzer.rs          | 14 +++++++-------
 src/bin/bulk_performance_experiment.rs | 17 ++++++++++-------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index f527b1c..77287be 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -181,13 +181,13 @@ fn extract_inputs(
 
 fn load_existing_outputs(
     path: &Option<PathBuf>,
-) -> Result<BTreeMap<String, OutputDataPoint>, Box<dyn Error>> {
+) -> Result<BTreeMap<String, Vec<OutputDataPoint>>, Box<dyn Error>> {
     if let Some(path) = path {
         let data_points = read_csv_from_file(path)?;
-        let data_points_map = data_points
-            .into_iter()
-            .map(|d| (d.label.clone(), d))
-            .collect();
+        let mut data_points_map: BTreeMap<String, Vec<OutputDataPoint>> = BTreeMap::new();
+        for d in data_points {
+            data_points_map.entry(d.label.clone()).or_default().push(d);
+        }
         Ok(data_points_map)
     } else {
         Ok(BTreeMap::new())
@@ -196,7 +196,7 @@ fn load_existing_outputs(
 
 fn make_sorted_tasklist(
     inputs: Vec<InputDataPoint>,
-    existing_outputs: BTreeMap<String, OutputDataPoint>,
+    existing_outputs: BTreeMap<String, Vec<OutputDataPoint>>,
 ) -> Vec<Task> {
     let mut tasks: Vec<Task> = inputs
         .into_iter()
@@ -207,7 +207,7 @@ fn make_sorted_tasklist(
                 None
             }
         })
-        .chain(existing_outputs.values().cloned().map(Reuse))
+        .chain(existing_outputs.values().flatten().cloned().map(Reuse))
         .collect();
     tasks.sort_by_cached_key(|t| t.label());
     tasks
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 2bb4b22..8c91682 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -134,13 +134,16 @@ fn generate_inputs(
 
 fn load_existing_outputs(
     path: &Option<PathBuf>,
-) -> Result<BTreeMap<InputDataPoint, OutputDataPoint>, Box<dyn Error>> {
+) -> Result<BTreeMap<InputDataPoint, Vec<OutputDataPoint>>, Box<dyn Error>> {
     if let Some(path) = path {
         let data_points = read_csv_from_file(path)?;
-        let data_points_map = data_points
-            .into_iter()
-            .map(|d| (InputDataPoint::from_output_data_point(&d), d))
-            .collect();
+        let mut data_points_map: BTreeMap<InputDataPoint, Vec<OutputDataPoint>> = BTreeMap::new();
+        for d in data_points {
+            data_points_map
+                .entry(InputDataPoint::from_output_data_point(&d))
+                .or_default()
+                .push(d);
+        }
         Ok(data_points_map)
     } else {
         Ok(BTreeMap::new())
@@ -149,7 +152,7 @@ fn load_existing_outputs(
 
 fn make_sorted_tasklist(
     inputs: Vec<InputDataPoint>,
-    existing_outputs: BTreeMap<InputDataPoint, OutputDataPoint>,
+    existing_outputs: BTreeMap<InputDataPoint, Vec<OutputDataPoint>>,
 ) -> Vec<Task> {
     let mut tasks: Vec<Task> = inputs
         .into_iter()
@@ -160,7 +163,7 @@ fn make_sorted_tasklist(
                 None
             }
         })
-        .chain(existing_outputs.values().cloned().map(Reuse))
+        .chain(existing_outputs.values().flatten().cloned().map(Reuse))
         .collect();
     tasks.sort_by_cached_key(|t| t.label());
     tasks
-- 
2.43.0


From b625b39983e6cddce36712d474c7994f1c005800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 17/18] fix: a read error makes an update lose existing results

---
 src/bin/bulk_fbas_analyzer.rs          | 3 ++-
 src/bin/bulk_performance_experiment.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/bulk_fbas_analyzer.rs b/src/bin/bulk_fbas_analyzer.rs
index 77287be..b419edc 100644
--- a/src/bin/bulk_fbas_analyzer.rs
+++ b/src/bin/bulk_fbas_analyzer.rs
@@ -463,7 +463,8 @@ fn maybe_load_countries<'a>(nodes_path: &Path, fbas: &'a Fbas) -> Option<Groupin
 }
 
 fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error>> {
-    let mut reader = Reader::from_path(path)?;
+    let contents = std::fs::read(path)?;
+    let mut reader = Reader::from_reader(contents.as_slice());
     let mut result = vec![];
     for line in reader.deserialize() {
         result.push(line?);
diff --git a/src/bin/bulk_performance_experiment.rs b/src/bin/bulk_performance_experiment.rs
index 8c91682..703286c 100644
--- a/src/bin/bulk_performance_experiment.rs
+++ b/src/bin/bulk_performance_experiment.rs
@@ -327,7 +327,8 @@ fn make_almost_ideal_stellarlike_fbas(top_tier_size: usize) -> Fbas {
 }
 
 fn read_csv_from_file(path: &Path) -> Result<Vec<OutputDataPoint>, Box<dyn Error>> {
-    let mut reader = Reader::from_path(path)?;
+    let contents = std::fs::read(path)?;
+    let mut reader = Reader::from_reader(contents.as_slice());
     let mut result = vec![];
     for line in reader.deserialize() {
         result.push(line?);
-- 
2.43.0


From 205eb934b4cef7f89dca40295edd69324ca6d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:11 +0000
Subject: [PATCH 18/18] fix: compare and hash results by the node sets they
 contain

---
 src/analysis/results.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/analysis/results.rs b/src/analysis/results.rs
index 93fd16b..d460a37 100644
--- a/src/analysis/results.rs
+++ b/src/analysis/results.rs
@@ -1,5 +1,7 @@
 use super::*;
 
+use std::hash::{Hash, Hasher};
+
 /// Wraps a node ID set.
 #[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
 pub struct NodeIdSetResult {
@@ -59,11 +61,27 @@ impl NodeIdSetResult {
 }
 
 /// Wraps a vector of node ID sets. Node ID sets are stored in shrunken form to preserve memory.
-#[derive(Debug, Clone, Eq, PartialEq, Hash, Default)]
+#[derive(Debug, Clone, Default)]
 pub struct NodeIdSetVecResult {
     pub(crate) node_sets: Vec<NodeIdSet>,
     pub(crate) unshrink_table: Option<Vec<NodeId>>,
 }
+/// Results are equal if they contain the same node sets, no matter how these are stored.
+impl PartialEq for NodeIdSetVecResult {
+    fn eq(&self, other: &Self) -> bool {
+        if self.unshrink_table == other.unshrink_table {
+            self.node_sets == other.node_sets
+        } else {
+            self.clone().unwrap() == other.clone().unwrap()
+        }
+    }
+}
+impl Eq for NodeIdSetVecResult {}
+impl Hash for NodeIdSetVecResult {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        self.clone().unwrap().hash(state);
+    }
+}
 impl NodeIdSetVecResult {
     pub(crate) fn new(node_sets: Vec<NodeIdSet>, shrink_manager: Option<&ShrinkManager>) -> Self {
         NodeIdSetVecResult {
-- 
2.43.0

