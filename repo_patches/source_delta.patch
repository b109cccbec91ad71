From db56d6f05e41ae794ed28a73ace6b363d6c2d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 1/6] fix: reject CIMs with negative off-diagonal or non-finite
 entries

---
 src/params.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/params.rs b/src/params.rs
index 71395af..978fea0 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -300,6 +300,17 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             return Err(ParamsError::InvalidCIM(message));
         }
 
+        // Check if all the values are finite
+        if cim.iter().any(|x| !x.is_finite()) {
+            warn!(
+                "The values of each cim for node {} must be finite",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The values of each cim must be finite",
+            )));
+        }
+
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
@@ -314,6 +325,20 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if the off-diagonal values of each cim are non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, row, col), x)| row != col && x < &0.0)
+        {
+            warn!(
+                "The off-diagonal values of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The off-diagonal values of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
-- 
2.43.0


From d8a0d2e0c330107c3611b36b4d6d92984352167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 2/6] fix: scale the row-sum tolerance of CIM validation with
 the row's rates

---
 src/params.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 978fea0..f9bddf1 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -339,11 +339,12 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
-        // Check if each row sum up to 0
+        // Check if each row sum up to 0. The rounding error of the sum grows with the size of the
+        // summed values, so the tolerance is relative to the diagonal (for values bigger than 1).
         if cim
             .sum_axis(Axis(2))
-            .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
+            .indexed_iter()
+            .any(|((u, x), sum)| sum.abs() > f64::EPSILON.sqrt() * cim[[u, x, x]].abs().max(1.0))
         {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
-- 
2.43.0


From 1354986532a3b3c281cd146797ae0f20fcdb49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 3/6] fix: never draw a next state whose intensity is zero

---
 src/params.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index f9bddf1..f271e1d 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,19 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // Invert the cumulative distribution over the states reachable from `state`
+                // (i.e. the off-diagonal elements with a positive intensity).
+                let mut next_state = state;
+                let mut cumulative = 0.0;
+                for (idx, intensity) in cim.slice(s![u, state, ..]).indexed_iter() {
+                    if idx != state && intensity > &0.0 {
+                        cumulative += intensity / lambda;
+                        next_state = idx;
+                        if cumulative >= urand {
+                            break;
                         }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    }
+                }
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From 2bdf319835d88fcbfdfde29fba32d09365147267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 4/6] fix: sample a Markov process from its only intensity
 matrix

---
 src/sampling.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index 66abc34..78344f7 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -154,6 +154,17 @@ impl<'a, T: NetworkProcess> ForwardSampler<'a, T> {
         fs.reset();
         return fs;
     }
+
+    /// Index of the intensity matrix of `node` given the `current_state` of the process.
+    ///
+    /// A node without parents (e.g. the only node of a `CtmpProcess`) has a single intensity matrix.
+    fn get_param_index(net: &T, node: usize, current_state: &NetworkProcessState) -> usize {
+        if net.get_parent_set(node).is_empty() {
+            0
+        } else {
+            net.get_param_index_network(node, current_state)
+        }
+    }
 }
 
 impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
@@ -178,7 +189,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                             self.net
                                 .get_node(idx)
                                 .state_to_index(&self.current_state[idx]),
-                            self.net.get_param_index_network(idx, &self.current_state),
+                            Self::get_param_index(self.net, idx, &self.current_state),
                             &mut self.rng,
                         )
                         .unwrap()
@@ -207,8 +218,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                 self.net
                     .get_node(next_node_transition)
                     .state_to_index(&self.current_state[next_node_transition]),
-                self.net
-                    .get_param_index_network(next_node_transition, &self.current_state),
+                Self::get_param_index(self.net, next_node_transition, &self.current_state),
                 &mut self.rng,
             )
             .unwrap();
-- 
2.43.0


From c0df406180af0fb2810cc705580980320daa99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 5/6] fix: credit dwelling time with the reward of the state
 left by a transition

---
 src/reward/reward_evaluation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..4aa9154 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -219,7 +219,9 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    // Between `previous.t` and `current.t` the process was in `previous.state`.
+                    let dwelling = reward_function.call(&previous.state, None);
+                    ret += discount * dwelling.instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From c78624d9a757246c8750a59c854477cc6e877a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 6/6] fix: discard the parameters of nodes that lose their
 parents

---
 src/process/ctbn.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..6da3331 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -164,10 +164,25 @@ impl CtbnNetwork {
     pub fn get_adj_matrix(&self) -> Option<&Array2<u16>> {
         self.adj_matrix.as_ref()
     }
+
+    /// Reset the parameters of each node with at least one parent.
+    ///
+    /// The parameters of a node are defined for a specific parent set, so they are no longer
+    /// meaningful when all the edges are going to be removed.
+    fn reset_params_of_children(&mut self) {
+        if let Some(adj_matrix) = &self.adj_matrix {
+            for (node, parents) in self.nodes.iter_mut().zip(adj_matrix.columns()) {
+                if parents.iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
 }
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.reset_params_of_children();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,6 +190,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
+        self.reset_params_of_children();
         self.adj_matrix = Option::None;
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
-- 
2.43.0

