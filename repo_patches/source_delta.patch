From beb0277ebd05c09c486d4e8b471d8ce1f0f95e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:22 +0000
Subject: [PATCH 01/51] verification hook: cfg(hibou_verif) driver entry point

---
 src/main.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 64d2aea..6ea435f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -40,6 +40,14 @@ pub mod trace_manip;
 pub mod nfa_translation;
 pub mod experiments;
 
+// verification driver (only with RUSTFLAGS/rustc flag `--cfg hibou_verif`): the source file
+// named by HIBOU_VERIF_DRIVER at compile time, which takes over when its own environment
+// variable asks it to
+#[cfg(hibou_verif)]
+mod verif {
+    include!(env!("HIBOU_VERIF_DRIVER"));
+}
+
 // **********
 
 use crate::core::general_context::GeneralContext;
@@ -49,5 +57,11 @@ use crate::io::output::draw_interactions::interface::{draw_interaction, Interact
 use crate::ui::hibou_cli::hibou_cli;
 
 fn main() {
+    #[cfg(hibou_verif)]
+    {
+        if verif::run() {
+            return;
+        }
+    }
     hibou_cli();
 }
-- 
2.43.0


From fe1d405c0c1e47eb88d3f515e9a493ee792c715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:39 +0000
Subject: [PATCH 02/51] fix: lifeline removal turns a head-first loop that
 loses actions into a weakly sequential loop

---
 src/core/language/eliminate_lf/interaction.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/language/eliminate_lf/interaction.rs b/src/core/language/eliminate_lf/interaction.rs
index c239f5b..e91c210 100644
--- a/src/core/language/eliminate_lf/interaction.rs
+++ b/src/core/language/eliminate_lf/interaction.rs
@@ -17,7 +17,8 @@ limitations under the License.
 
 use std::collections::{BTreeSet, HashSet};
 use crate::core::language::eliminate_lf::eliminable::LifelineEliminable;
-use crate::core::language::syntax::interaction::Interaction;
+use crate::core::language::involve::involves::InvolvesLifelines;
+use crate::core::language::syntax::interaction::{Interaction, LoopKind};
 
 
 impl LifelineEliminable for Interaction {
@@ -174,8 +175,18 @@ impl LifelineEliminable for Interaction {
                     }
                 }
             },
-            Interaction::Loop(opkind,i1) => {
+            Interaction::Loop(old_opkind,i1) => {
                 let new_i1 = i1.eliminate_lifelines(lfs_to_eliminate);
+                // once actions are removed from the body of a head-first loop the remaining ones do not
+                // witness anymore the order in which its iterations started : it becomes a weakly sequential loop
+                let opkind = match old_opkind {
+                    LoopKind::HHeadFirstWS if !i1.involved_lifelines().is_disjoint(lfs_to_eliminate) => {
+                        &LoopKind::WWeakSeq
+                    },
+                    _ => {
+                        old_opkind
+                    }
+                };
                 match &new_i1 {
                     Interaction::Empty => {
                         return Interaction::Empty;
-- 
2.43.0


From 685256fc093b9a3a2dc376231e62e95eddf5ec85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:14 +0000
Subject: [PATCH 03/51] fix: co-region execution prunes only the lifelines
 outside the co-region when computing affected lifelines

---
 src/core/execution/semantics/execute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index ef4547e..f87b703 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -337,7 +337,7 @@ fn execute_interaction_right(my_int : &Interaction,
                 let got_i1;
                 let mut aff1;
                 if lfs_to_prune.len() > 0 {
-                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&tar_lf_ids);
+                    let (Agot_i1,mut Aaff1) = i1.prune_with_affected(&lfs_to_prune);
                     got_i1 = Agot_i1;
                     aff1 = Aaff1;
                 } else {
-- 
2.43.0


From 363cf2f74032309bf4f355d5177b8c6743b289a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 04/51] fix: pruning with affected lifelines handles
 synchronised products

---
 src/core/language/prune/interaction.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/core/language/prune/interaction.rs b/src/core/language/prune/interaction.rs
index 2eb7e7d..797bc5c 100644
--- a/src/core/language/prune/interaction.rs
+++ b/src/core/language/prune/interaction.rs
@@ -201,6 +201,27 @@ impl LifelinePrunable for Interaction {
                     }
                 }
             },
+            Interaction::Sync(sync_acts, i1, i2) => {
+                let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
+                let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
+                aff1.extend(aff2);
+                let acts1 = pruned_i1.get_all_trace_actions();
+                let acts2 = pruned_i2.get_all_trace_actions();
+                let sync_acts_as_set : BTreeSet<TraceAction> = BTreeSet::from_iter(sync_acts.iter().cloned());
+                if sync_acts_as_set.is_disjoint(&acts1) && sync_acts_as_set.is_disjoint(&acts2) {
+                    if pruned_i1 == Interaction::Empty {
+                        return (pruned_i2,aff1);
+                    } else {
+                        if pruned_i2 == Interaction::Empty {
+                            return (pruned_i1,aff1);
+                        } else {
+                            return (Interaction::Par( Box::new(pruned_i1) , Box::new(pruned_i2) ),aff1);
+                        }
+                    }
+                } else {
+                    return (Interaction::Sync(sync_acts.clone(), Box::new(pruned_i1) , Box::new(pruned_i2) ),aff1);
+                }
+            },
             Interaction::Strict(i1, i2) => {
                 let (pruned_i1,mut aff1) = i1.prune_with_affected(lf_ids);
                 let (pruned_i2,aff2) = i2.prune_with_affected(lf_ids);
-- 
2.43.0


From f02e4b2a5b518c982ba8da1fae86df763ce942ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 05/51] fix: joint execution of a synchronised product
 constrains each operand by its own lifelines only

---
 src/core/execution/semantics/execute.rs | 48 +++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/core/execution/semantics/execute.rs b/src/core/execution/semantics/execute.rs
index f87b703..afd7544 100644
--- a/src/core/execution/semantics/execute.rs
+++ b/src/core/execution/semantics/execute.rs
@@ -404,6 +404,49 @@ fn execute_interaction_right(my_int : &Interaction,
     }
 }
 
+fn get_lifelines_executed_at(my_int : &Interaction,
+                             my_pos : &Position) -> BTreeSet<usize> {
+    match (my_int,my_pos) {
+        (Interaction::Emission(em_act), Position::Epsilon(_)) => {
+            match em_act.synchronicity {
+                CommunicationSynchronicity::Synchronous => em_act.involved_lifelines(),
+                CommunicationSynchronicity::Asynchronous => btreeset!{em_act.origin_lf_id}
+            }
+        },
+        (Interaction::Reception(rc_act), Position::Epsilon(Some(rcp_idx))) => {
+            btreeset!{rc_act.recipients[*rcp_idx]}
+        },
+        (Interaction::Reception(rc_act), Position::Epsilon(None)) => {
+            rc_act.involved_lifelines()
+        },
+        (Interaction::Loop(_,i1), Position::Left(p1)) => {
+            get_lifelines_executed_at(i1,p1)
+        },
+        (Interaction::Strict(i1,i2), _) |
+        (Interaction::Seq(i1,i2), _) |
+        (Interaction::Alt(i1,i2), _) |
+        (Interaction::Par(i1,i2), _) |
+        (Interaction::CoReg(_,i1,i2), _) |
+        (Interaction::Sync(_,i1,i2), _) => {
+            match my_pos {
+                Position::Left(p1) => get_lifelines_executed_at(i1,p1),
+                Position::Right(p2) => get_lifelines_executed_at(i2,p2),
+                Position::Both(p1,p2) => {
+                    let mut lfs = get_lifelines_executed_at(i1,p1);
+                    lfs.extend(get_lifelines_executed_at(i2,p2));
+                    lfs
+                },
+                Position::Epsilon(_) => panic!("no action at this position")
+            }
+        },
+        _ => {
+            panic!("no action at this position");
+        }
+    }
+}
+
+
+
 fn execute_interaction_both(my_int : &Interaction,
                             sub_p1 : &Position,
                             sub_p2 : &Position,
@@ -426,8 +469,9 @@ fn execute_interaction_both(my_int : &Interaction,
             }
         },
         Interaction::Sync(sync_acts, i1, i2) => {
-            let exres1 = execute_interaction(i1,sub_p1, tar_lf_ids,get_affected);
-            let exres2 = execute_interaction(i2,sub_p2, tar_lf_ids,get_affected);
+            // each operand is only constrained by the lifelines of its own part of the joint action
+            let exres1 = execute_interaction(i1,sub_p1, &get_lifelines_executed_at(i1,sub_p1),get_affected);
+            let exres2 = execute_interaction(i2,sub_p2, &get_lifelines_executed_at(i2,sub_p2),get_affected);
             // ***
             let acts1 = exres1.interaction.get_all_trace_actions();
             let acts2 = exres2.interaction.get_all_trace_actions();
-- 
2.43.0


From 1918f5b0649d8905397f65a3d0b4da0f3701a91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 06/51] fix: analysis nodes are only memoized together when
 they consumed the same part of the multi-trace

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index f29a02e..7c6d9d5 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -49,7 +49,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
             for idx in 0..self.flags.canals.len() {
                 let my_canal : &TraceAnalysisFlags  = self.flags.canals.get(idx).unwrap();
                 let other_canal : &TraceAnalysisFlags = memoized_node.flags.canals.get(idx).unwrap();
-                if my_canal.consumed > other_canal.consumed {
+                if my_canal.consumed != other_canal.consumed {
                     return false;
                 }
                 if my_canal.simulated_after < other_canal.simulated_after {
-- 
2.43.0


From 92516d5a0f173a9a69f656aae9940b21541fb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 07/51] fix: simulation steps without a loop or action
 criterion underflow the remaining budgets

---
 src/process/ana/node/flags.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/node/flags.rs b/src/process/ana/node/flags.rs
index fd0413b..f758377 100644
--- a/src/process/ana/node/flags.rs
+++ b/src/process/ana/node/flags.rs
@@ -240,14 +240,14 @@ impl MultiTraceAnalysisFlags {
         // ***
         let rem_loop_in_sim : u32;
         {
-            let removed = self.rem_loop_in_sim - loop_depth;
+            let removed = self.rem_loop_in_sim.saturating_sub(loop_depth);
             let reset = sim_config.get_reset_rem_loop(rem_multitrace_length,new_interaction);
             rem_loop_in_sim = reset.min(removed);
         }
         // ***
         let rem_act_in_sim : u32;
         {
-            let removed = self.rem_act_in_sim - 1;
+            let removed = self.rem_act_in_sim.saturating_sub(1);
             let reset = sim_config.get_reset_rem_act(rem_multitrace_length,new_interaction);
             rem_act_in_sim = reset.min(removed);
         }
-- 
2.43.0


From 94bbac771c34bf3193cfdf8438d6c3aa4614041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:13 +0000
Subject: [PATCH 08/51] fix: actions outside loops are counted without those of
 nested loops

---
 .../execution/trace/from_model/interaction.rs | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/core/execution/trace/from_model/interaction.rs b/src/core/execution/trace/from_model/interaction.rs
index 422114a..c1aefec 100644
--- a/src/core/execution/trace/from_model/interaction.rs
+++ b/src/core/execution/trace/from_model/interaction.rs
@@ -89,32 +89,32 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Par(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -122,8 +122,8 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return btreeset!{};
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                let mut acts1 = i1.get_all_trace_actions();
-                let acts2 = i2.get_all_trace_actions();
+                let mut acts1 = i1.get_trace_actions_outside_loops();
+                let acts2 = i2.get_trace_actions_outside_loops();
                 acts1.extend(acts2);
                 return acts1;
             },
@@ -183,25 +183,25 @@ impl InteractionInterpretableAsTraceAction for Interaction {
                 return rc_act.get_all_atomic_actions().len();
             },
             &Interaction::Strict(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Seq(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::CoReg(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Par(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Alt(ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             &Interaction::Loop(_, i1) => {
                 return 0;
             },
             &Interaction::Sync(_, ref i1, ref i2) => {
-                return i1.get_atomic_actions_number() + i2.get_atomic_actions_number();
+                return i1.get_atomic_actions_number_outside_loops() + i2.get_atomic_actions_number_outside_loops();
             },
             _ => {
                 panic!("non-conform interaction");
-- 
2.43.0


From 8ddbde7e5b777960e6a18865bbb00900ef8aa758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 09/51] fix: simulating a joint action skipped all but one of
 its unmatched parts

---
 src/process/ana/handling/matches.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 3a6fb43..255f80c 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -132,12 +132,10 @@ impl AnalysisParameterization {
                     if canal_flag.consumed == canal_trace.len() {
                         to_simulate.insert( tract_coloc_id, SimulationStepKind::AfterEnd);
                         gotit = true;
-                        break;
                     } else {
                         if self.ana_kind.sim_before() && (canal_flag.consumed == 0) {
                             to_simulate.insert(tract_coloc_id,SimulationStepKind::BeforeStart);
                             gotit = true;
-                            break;
                         }
                     }
                     // *
-- 
2.43.0


From 48a2f9640d3b0e4773a6c5e657c42858b61c4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 10/51] fix: simulation panicked when an observed multi-action
 is only a part of a joint action on its co-localization

---
 src/process/ana/handling/matches.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 255f80c..4c5a603 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -99,6 +99,12 @@ impl AnalysisParameterization {
                                 entirely_included_in_front_elt = false;
                             }
                         }
+                        // the observed multi-action must be the whole part of the joint action on that co-localization
+                        for frt_act in &frt_elt.target_actions {
+                            if context.co_localizations.get_lf_coloc_id(frt_act.lf_id) == Some(canal_id) && !got_multiact.contains(frt_act) {
+                                entirely_included_in_front_elt = false;
+                            }
+                        }
                         // ***
                         if intersect_with_front_elt && entirely_included_in_front_elt {
                             match_on_canal.push(canal_id );
-- 
2.43.0


From eb880d17b71d04804217466ad5ca985892837867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 11/51] fix: joint actions spanning several co-localizations
 are matched against the heads of all of them

---
 src/process/ana/handling/matches.rs | 34 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/process/ana/handling/matches.rs b/src/process/ana/handling/matches.rs
index 4c5a603..5df4405 100644
--- a/src/process/ana/handling/matches.rs
+++ b/src/process/ana/handling/matches.rs
@@ -233,13 +233,6 @@ impl AnalysisParameterization {
                                           context : &AnalysisContext,
                                           interaction : &Interaction,
                                           flags : &MultiTraceAnalysisFlags) -> Vec<AnalysisStepKind> {
-        /**
-         TODO: this new way of computing matches has allowed partial order readuction but it has broken
-         TODO: matching for synchronous communications (e.g., the <synch> keyword)
-         TODO: indeed, we match each individual head action to a frontier element
-         TODO: but with synchronous comm several distinct head actions can be matched together with a single frontier element
-         TODO: a quick fix is easy to do but still needs to be done
-         **/
         // ***
         let mut coloc_ids_to_frontier_elts : HashMap<usize,Vec<FrontierElement>> = hashmap!{};
         let matching_heads : Vec<(usize,&BTreeSet<TraceAction>)> = {
@@ -256,14 +249,24 @@ impl AnalysisParameterization {
 
             // iter head actions
             for frt_elt in global_frontier(interaction,true) {
-                // iter head actions to look for a match
-                'iter_head : for (coloc_id,head) in head_actions.iter() {
-                    // if there is a match keeps track of frt_elt
-                    if frt_elt.target_actions == **head {
-                        coloc_ids_to_frontier_elts.entry(*coloc_id)
+                // on each co-localization, the part of the frontier action that occurs there must be the head multi-action
+                let target_colocs : BTreeSet<usize> = context.co_localizations
+                    .get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids)
+                    .into_iter()
+                    .collect();
+                let is_match = target_colocs.iter().all(|target_coloc_id| {
+                    let expected : BTreeSet<TraceAction> = frt_elt.target_actions.iter()
+                        .filter(|act| context.co_localizations.get_lf_coloc_id(act.lf_id) == Some(*target_coloc_id))
+                        .cloned()
+                        .collect();
+                    head_actions.iter().any(|(coloc_id,head)| coloc_id == target_coloc_id && **head == expected)
+                });
+                // if there is a match keeps track of frt_elt
+                if is_match {
+                    if let Some(first_coloc_id) = target_colocs.into_iter().next() {
+                        coloc_ids_to_frontier_elts.entry(first_coloc_id)
                             .or_insert_with(Vec::new)
                             .push(frt_elt);
-                        break 'iter_head;
                     }
                 }
             }
@@ -282,7 +285,10 @@ impl AnalysisParameterization {
                 // chooses only this single head action
                 // as the unique successor
                 // implements linearization/partial order reduction
-                if Self::is_action_univocal_in_analysis(context,
+                // (joint actions on several co-localizations are not reduced)
+                let on_a_single_coloc = coloc_ids_to_frontier_elts.get(coloc_id).unwrap().iter()
+                    .all(|frt_elt| context.co_localizations.get_coloc_ids_from_lf_ids(&frt_elt.target_lf_ids).len() == 1);
+                if on_a_single_coloc && Self::is_action_univocal_in_analysis(context,
                                                         interaction,
                                                         *coloc_id,
                                                         head) {
-- 
2.43.0


From de56315ebf516c244858be3d9143fa668b8c89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:09 +0000
Subject: [PATCH 12/51] fix: an analysis node without hidden co-localizations
 is not merged with one that has some

---
 src/process/ana/node/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process/ana/node/node.rs b/src/process/ana/node/node.rs
index 7c6d9d5..c8c4c13 100644
--- a/src/process/ana/node/node.rs
+++ b/src/process/ana/node/node.rs
@@ -58,7 +58,7 @@ impl AbstractNodeKind for AnalysisNodeKind {
                 if my_canal.simulated_before < other_canal.simulated_before {
                     return false;
                 }
-                if my_canal.no_longer_observed && !other_canal.no_longer_observed {
+                if my_canal.no_longer_observed != other_canal.no_longer_observed {
                     return false;
                 }
             }
-- 
2.43.0


From 225e1307d4868ff2d3ba72738d6090b307cf3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 13/51] fix: a trace generation partition is completed with the
 lifelines it does not mention

---
 src/io/input/hcf/loggers/tracegen.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 909493e..1c2443e 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -127,6 +127,13 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                             colocs.push(coloc);
                         }
                         // ***
+                        // lifelines that are not mentioned are observed on their own
+                        for lf_id in gen_ctx.get_all_lfs_ids() {
+                            if !got_lfs.contains(&lf_id) {
+                                colocs.push(btreeset!{lf_id});
+                            }
+                        }
+                        // ***
                         co_localizations = CoLocalizations::new(colocs);
                     },
                     _ => {
-- 
2.43.0


From f27a4115cf75245a3a1cf91ddd6f22d882ed00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 14/51] fix: unfolding actions leaves synchronous
 communications whole

---
 src/core/transformation/transfofunc/action.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/transformation/transfofunc/action.rs b/src/core/transformation/transfofunc/action.rs
index 47090c2..6298fce 100644
--- a/src/core/transformation/transfofunc/action.rs
+++ b/src/core/transformation/transfofunc/action.rs
@@ -49,7 +49,7 @@ pub fn transfo_sort_action_content(interaction : &Interaction) -> Vec<Interactio
 pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Emission(ref em_act) => {
-            if em_act.targets.len() == 0 {
+            if em_act.targets.len() == 0 || em_act.synchronicity == CommunicationSynchronicity::Synchronous {
                 // nothing to transform
                 return vec![];
             } else {
@@ -89,6 +89,10 @@ pub fn transfo_unfold_action(interaction : &Interaction) -> Vec<Interaction> {
             }
         },
         &Interaction::Reception(ref rc_act) => {
+            if rc_act.synchronicity == CommunicationSynchronicity::Synchronous {
+                // all the receptions occur at once
+                return vec![];
+            }
             match rc_act.recipients.len() {
                 0 => {
                     panic!("malformed interaction : reception action with 0 recipients")
-- 
2.43.0


From e0ade963dafdab015cb2776d2740e0e1a619943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 15/51] fix: reversing an asynchronous communication puts its
 receptions first

---
 src/core/language/syntax/interaction.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index d17ade9..c04cf05 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -18,7 +18,7 @@ limitations under the License.
 use std::collections::HashSet;
 use std::hash::Hash;
 use crate::core::execution::trace::trace::TraceAction;
-use crate::core::language::syntax::action::{EmissionAction, ReceptionAction};
+use crate::core::language::syntax::action::{CommunicationSynchronicity, EmissionAction, EmissionTargetRef, ReceptionAction};
 
 
 #[derive(Clone, PartialEq, Debug, Eq, PartialOrd, Ord, Hash)]
@@ -53,7 +53,22 @@ impl Interaction {
                 Interaction::Empty
             },
             Interaction::Emission(ref em_act) => {
-                Interaction::Emission(em_act.clone())
+                let mut recipients : Vec<usize> = vec![];
+                let mut gates : Vec<EmissionTargetRef> = vec![];
+                for target_ref in &em_act.targets {
+                    match target_ref {
+                        EmissionTargetRef::Lifeline(lf_id) => { recipients.push(*lf_id); },
+                        EmissionTargetRef::Gate(_) => { gates.push(target_ref.clone()); }
+                    }
+                }
+                if em_act.synchronicity == CommunicationSynchronicity::Synchronous || recipients.is_empty() {
+                    Interaction::Emission(em_act.clone())
+                } else {
+                    // the receptions of an asynchronous communication occur after its emission
+                    let reception = ReceptionAction::new(None,em_act.ms_id,CommunicationSynchronicity::Asynchronous,recipients);
+                    let emission = EmissionAction::new(em_act.origin_lf_id,em_act.ms_id,CommunicationSynchronicity::Asynchronous,gates);
+                    Interaction::Strict(Box::new(Interaction::Reception(reception)),Box::new(Interaction::Emission(emission)))
+                }
             },
             Interaction::Reception(ref rc_act) => {
                 Interaction::Reception(rc_act.clone())
-- 
2.43.0


From ec50852852b301199e2e6f71b55bc84d9aad88ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 16/51] fix: head-first loops are not merged with the
 head-first or strict loops they directly contain

---
 src/core/language/eliminate_lf/interaction.rs     |  2 +-
 src/core/language/syntax/interaction.rs           | 12 ++++++++++++
 src/core/transformation/transfofunc/loop_simpl.rs |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/language/eliminate_lf/interaction.rs b/src/core/language/eliminate_lf/interaction.rs
index e91c210..25c0ccc 100644
--- a/src/core/language/eliminate_lf/interaction.rs
+++ b/src/core/language/eliminate_lf/interaction.rs
@@ -191,7 +191,7 @@ impl LifelineEliminable for Interaction {
                     Interaction::Empty => {
                         return Interaction::Empty;
                     },
-                    Interaction::Loop(opkind2,i11) => {
+                    Interaction::Loop(opkind2,i11) if opkind.can_merge_with_nested(opkind2) => {
                         return Interaction::Loop((opkind.min(opkind2)).clone(), i11.clone());
                     },
                     _ => {
diff --git a/src/core/language/syntax/interaction.rs b/src/core/language/syntax/interaction.rs
index c04cf05..179c047 100644
--- a/src/core/language/syntax/interaction.rs
+++ b/src/core/language/syntax/interaction.rs
@@ -29,6 +29,18 @@ pub enum LoopKind {
     SStrictSeq     = 4
 }
 
+impl LoopKind {
+    /// whether a loop of this kind directly over a loop of the nested kind can be replaced by a single loop (of the least of both kinds)
+    /// iterations of a nested head-first or strict loop are not ordered in the same way within a single head-first loop
+    pub fn can_merge_with_nested(&self, nested : &LoopKind) -> bool {
+        match (self,nested) {
+            (LoopKind::HHeadFirstWS,LoopKind::HHeadFirstWS) => { false },
+            (LoopKind::HHeadFirstWS,LoopKind::SStrictSeq) => { false },
+            _ => { true }
+        }
+    }
+}
+
 #[derive(Clone, PartialEq, Debug, Eq, Hash, PartialOrd)]
 pub enum Interaction {
     Empty,
diff --git a/src/core/transformation/transfofunc/loop_simpl.rs b/src/core/transformation/transfofunc/loop_simpl.rs
index 47c463e..ce33ac7 100644
--- a/src/core/transformation/transfofunc/loop_simpl.rs
+++ b/src/core/transformation/transfofunc/loop_simpl.rs
@@ -38,7 +38,7 @@ pub fn transfo_loop_unnest(interaction : &Interaction) -> Vec<Interaction> {
     match interaction {
         &Interaction::Loop(ref lkA, ref i1) => {
             match **i1 {
-                Interaction::Loop(ref lkB, ref i11) => {
+                Interaction::Loop(ref lkB, ref i11) if lkA.can_merge_with_nested(lkB) => {
                     return vec![Interaction::Loop((lkA.min(lkB)).clone(), i11.clone())];
                 },
                 _ => {}
-- 
2.43.0


From 0306d92f534ddbfa2cc54eaa3b202ebf65e3f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 17/51] fix: names starting with 'o' are usable in interaction
 files

---
 src/io/input/hif/hif_syntax.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hif/hif_syntax.pest b/src/io/input/hif/hif_syntax.pest
index 7050ae4..468cd76 100644
--- a/src/io/input/hif/hif_syntax.pest
+++ b/src/io/input/hif/hif_syntax.pest
@@ -83,8 +83,8 @@ SD_LOOP = {"loop" ~ (SD_LOOP_KIND_S | SD_LOOP_KIND_H | SD_LOOP_KIND_W | SD_LOOP_
 SD_LOOP_INT = { SD_LOOP ~ "(" ~ SD_INTERACTION ~ ")" }
 
 
-SD_INTERACTION = { SD_EMPTY_INTERACTION
-		| SD_COMMUNICATION_ACTION
+SD_INTERACTION = { SD_COMMUNICATION_ACTION
+		| SD_EMPTY_INTERACTION
         | SD_STRICT_INT
         | SD_SEQ_INT
         | SD_COREG_INT
-- 
2.43.0


From 17a7088cd876e57e01e9152eeb5e772641817364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 18/51] fix: a bare trace is about all the declared lifelines

---
 src/io/input/htf/implem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/htf/implem.rs b/src/io/input/htf/implem.rs
index e5fca20..ccdfc78 100644
--- a/src/io/input/htf/implem.rs
+++ b/src/io/input/htf/implem.rs
@@ -52,7 +52,7 @@ pub fn multitrace_from_text(gen_ctx : &GeneralContext,
                             return Err(e);
                         },
                         Ok( got_trace ) => {
-                            let co_localization = CoLocalizations::get_trivial_partition(lifelines.len());
+                            let co_localization = CoLocalizations::get_trivial_partition(gen_ctx.get_lf_num());
                             let multi_trace : MultiTrace = vec![got_trace];
                             return Ok( (co_localization,multi_trace) );
                         }
-- 
2.43.0


From 28e4791937344783c2b7246a2b310bcf255c5781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:26 +0000
Subject: [PATCH 19/51] fix: overlapping trace canals are refused even when the
 overlap has no action

---
 src/io/input/htf/multi_trace.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/htf/multi_trace.rs b/src/io/input/htf/multi_trace.rs
index c501d09..a1354a8 100644
--- a/src/io/input/htf/multi_trace.rs
+++ b/src/io/input/htf/multi_trace.rs
@@ -82,6 +82,9 @@ pub fn trace_canal_from_pair(gen_ctx : &GeneralContext,
                         return Err( HibouParsingError::MissingLifelineDeclarationError(lf_name));
                     },
                     Some( lf_id ) => {
+                        if unavailable_lifelines.contains(&lf_id) {
+                            return Err( HibouParsingError::NonDisjointTraceComponents );
+                        }
                         lifelines.insert(lf_id);
                     }
                 }
-- 
2.43.0


From ef1f069f5cf5266b4027393b1c44669ca5235bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 20/51] fix: interactions with 'sync' can be written to .hif
 files

---
 src/io/output/to_hfiles/interaction/interaction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/interaction/interaction.rs b/src/io/output/to_hfiles/interaction/interaction.rs
index 3f5610d..7501d8e 100644
--- a/src/io/output/to_hfiles/interaction/interaction.rs
+++ b/src/io/output/to_hfiles/interaction/interaction.rs
@@ -22,9 +22,11 @@ use crate::core::language::syntax::util::get_recursive_frag::{
     get_recursive_par_frags,
     get_recursive_seq_frags,
     get_recursive_coreg_frags,
+    get_recursive_sync_frags,
     get_recursive_strict_frags};
 use crate::io::output::to_hfiles::interaction::model_action::{emission_as_hif_encoding, reception_as_hif_encoding};
-use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT};
+use crate::io::textual_convention::{SYNTAX_ALT, SYNTAX_COREG, SYNTAX_EMPTY, SYNTAX_LOOP_H, SYNTAX_LOOP_P, SYNTAX_LOOP_S, SYNTAX_LOOP_W, SYNTAX_PAR, SYNTAX_SEQ, SYNTAX_STRICT, SYNTAX_SYNC};
+use crate::io::output::to_hfiles::trace::trace_action::trace_actions_as_htf_encoding;
 
 
 pub fn interaction_as_hif_encoding(gen_ctx : &GeneralContext,
@@ -101,6 +103,15 @@ fn interaction_as_hif_encoding_inner(gen_ctx : &GeneralContext,
             let i1_string = interaction_as_hif_encoding_inner(gen_ctx,depth+1,i1);
             return format!("{0}{1}(\n{2}\n{0})", "\t".repeat(depth), loop_kind_as_text(lk), i1_string);
         },
+        &Interaction::Sync(ref sync_acts, ref i1, ref i2) => {
+            let mut sync_frags = get_recursive_sync_frags(sync_acts,i1);
+            sync_frags.extend_from_slice(&mut get_recursive_sync_frags(sync_acts,i2));
+            let mut acts_text = trace_actions_as_htf_encoding(gen_ctx,&sync_acts.iter().cloned().collect());
+            if sync_acts.len() == 1 {
+                acts_text = format!("({:})", acts_text);
+            }
+            return op_as_hif_encoding(gen_ctx,depth,&format!("{:}{:}", SYNTAX_SYNC, acts_text),sync_frags);
+        },
         _ => {
             panic!("non-conform interaction");
         }
-- 
2.43.0


From 5feb9d9b37b2923182e0e4df27c137bf8685f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:51 +0000
Subject: [PATCH 21/51] fix: a reception by nobody is refused

---
 src/io/input/hif/action/act_targets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hif/action/act_targets.rs b/src/io/input/hif/action/act_targets.rs
index 5a7cd4e..594735e 100644
--- a/src/io/input/hif/action/act_targets.rs
+++ b/src/io/input/hif/action/act_targets.rs
@@ -63,7 +63,7 @@ pub fn parse_comm_act_targets_as_lifelines(gen_ctx : &GeneralContext, target_pai
             return Ok( target_lf_ids );
         },
         Rule::ENVIRONMENT_TARGET => {
-            return Ok( vec![] );
+            return Err( HibouParsingError::OtherDefinitionError("reception without a target lifeline".to_string()) );
         },
         _ => {
             panic!("what rule then ? : {:?}", inner_pair.as_rule() );
-- 
2.43.0


From eb63577d6ad3cb781756744ce47ee6a516181d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 22/51] fix: a file name without extension is refused instead
 of panicking

---
 src/io/input/hcf/ana/interface.rs   | 2 +-
 src/io/input/hcf/canon/interface.rs | 2 +-
 src/io/input/hcf/explo/interface.rs | 2 +-
 src/io/input/hif/interface.rs       | 2 +-
 src/io/input/hsf/interface.rs       | 2 +-
 src/io/input/htf/interface.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/input/hcf/ana/interface.rs b/src/io/input/hcf/ana/interface.rs
index c96ef64..d9134b0 100644
--- a/src/io/input/hcf/ana/interface.rs
+++ b/src/io/input/hcf/ana/interface.rs
@@ -37,7 +37,7 @@ use crate::io::input::hcf::ana::options::{HibouAnalyzeOptions, parse_analyze_opt
 pub fn parse_hcf_file_for_ana(gen_ctx : &GeneralContext,
                               file_path : &str) -> Result<HibouAnalyzeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/canon/interface.rs b/src/io/input/hcf/canon/interface.rs
index d95c342..54d8ef4 100644
--- a/src/io/input/hcf/canon/interface.rs
+++ b/src/io/input/hcf/canon/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::canon::options::{HibouCanonizeOptions, parse_canonize
 pub fn parse_hcf_file_for_canonize(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouCanonizeOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hcf/explo/interface.rs b/src/io/input/hcf/explo/interface.rs
index ef35f7a..a3157e2 100644
--- a/src/io/input/hcf/explo/interface.rs
+++ b/src/io/input/hcf/explo/interface.rs
@@ -35,7 +35,7 @@ use crate::io::input::hcf::explo::options::{HibouExploreOptions, parse_explore_o
 pub fn parse_hcf_file_for_explore(gen_ctx : &GeneralContext,
                                   file_path : &str) -> Result<HibouExploreOptions,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_CONFIGURATION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_CONFIGURATION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hif/interface.rs b/src/io/input/hif/interface.rs
index 6f022da..10864a9 100644
--- a/src/io/input/hif/interface.rs
+++ b/src/io/input/hif/interface.rs
@@ -30,7 +30,7 @@ use crate::io::file_extensions::{HIBOU_INTERACTION_FILE_EXTENSION};
 
 pub fn parse_hif_file(gen_ctx : &GeneralContext, file_path : &str) -> Result<Interaction,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_INTERACTION_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_INTERACTION_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/hsf/interface.rs b/src/io/input/hsf/interface.rs
index 6cf1818..ccdebbc 100644
--- a/src/io/input/hsf/interface.rs
+++ b/src/io/input/hsf/interface.rs
@@ -26,7 +26,7 @@ use crate::io::input::hsf::implem::parse_hsf_string;
 
 pub fn parse_hsf_file(file_path : &str) -> Result<GeneralContext,HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_SIGNATURE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_SIGNATURE_FILE_EXTENSION.to_string()));
     }
diff --git a/src/io/input/htf/interface.rs b/src/io/input/htf/interface.rs
index 63aaf32..83cd434 100644
--- a/src/io/input/htf/interface.rs
+++ b/src/io/input/htf/interface.rs
@@ -40,7 +40,7 @@ use crate::io::input::htf::parser::{HtfParser,Rule};
 pub fn parse_htf_file(gen_ctx : &GeneralContext,
                       file_path : &str) -> Result<(CoLocalizations,MultiTrace),HibouParsingError> {
     let path_object = Path::new(file_path);
-    let file_extension : &str = path_object.extension().unwrap().to_str().unwrap();
+    let file_extension : &str = path_object.extension().and_then(|ext| ext.to_str()).unwrap_or("");
     if file_extension != HIBOU_TRACE_FILE_EXTENSION {
         return Err( HibouParsingError::FileFormatError(file_extension.to_string(),HIBOU_TRACE_FILE_EXTENSION.to_string()));
     }
-- 
2.43.0


From 35c76fdf725cce29df5153323e3b9abeffadc79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 23/51] fix: numbers of configuration files end with their last
 digit

blanks and comments after a number were part of it, which made the tool
panic, or read '1 2' as 12
---
 src/io/input/hcf/hcf_syntax.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index a3b57d1..2957b29 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -92,7 +92,7 @@ OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
 OPTION_LOGGER_KIND = _{ OPTION_GRAPHIC_LOGGER | OPTION_TRACEGEN_LOGGER | OPTION_NFAIT_LOGGER }
 OPTION_LOGGER_DECL = { "loggers" ~ "=" ~ "[" ~ OPTION_LOGGER_KIND ~ ("," ~ OPTION_LOGGER_KIND)* ~ (",")? ~ "]" }
 // ***********************************************
-ARITH_INTEGER = { "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
+ARITH_INTEGER = @{ "0" | (ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*) }
 // ***********************************************
 OPTION_PRIORITY_emission = { "emission" }
 OPTION_PRIORITY_reception = { "reception" }
-- 
2.43.0


From b1dcd3a17c477b298c753ebbd1228fa197c6117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 24/51] fix: configuration options whose name starts with
 another option's name are recognised

parent_folder=, nfait, modulo_each_X_steps= and search_all=false were
refused, because a shorter alternative was tried first
---
 src/io/input/hcf/hcf_syntax.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/input/hcf/hcf_syntax.pest b/src/io/input/hcf/hcf_syntax.pest
index 2957b29..04521d5 100644
--- a/src/io/input/hcf/hcf_syntax.pest
+++ b/src/io/input/hcf/hcf_syntax.pest
@@ -42,7 +42,7 @@ GRAPHIC_LOGGER_draw_term_tree = { "draw_tt" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_sub_processes = { "draw_sub_processes" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 GRAPHIC_LOGGER_draw_legend = { "draw_legend" ~ "=" ~ (HIBOU_true | HIBOU_false) }
 
-GRAPHIC_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+GRAPHIC_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 GRAPHIC_LOGGER_output_file = { ("output"|"name") ~ "=" ~ HIBOU_LABEL }
 
 GRAPHIC_LOGGER_opt = _{ GRAPHIC_LOGGER_format
@@ -71,7 +71,7 @@ TRACEGEN_LOGGER_partition_trivial = { "trivial" }
 TRACEGEN_LOGGER_partition_specific = { "{" ~ HIBOU_LABEL_LIST ~ ("," ~ HIBOU_LABEL_LIST)*  ~ "}" }
 TRACEGEN_LOGGER_partition = _{ "partition" ~ "=" ~ (TRACEGEN_LOGGER_partition_discrete | TRACEGEN_LOGGER_partition_trivial | TRACEGEN_LOGGER_partition_specific) }
 
-TRACEGEN_LOGGER_parent_folder = { ("parent"|"parent_folder"|"folder") ~ "=" ~ HIBOU_LABEL }
+TRACEGEN_LOGGER_parent_folder = { ("parent_folder"|"parent"|"folder") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_trace_prefix = { ("name_prefix"|"trace_prefix"|"prefix") ~ "=" ~ HIBOU_LABEL }
 TRACEGEN_LOGGER_no_duplicate = { ("avoid_duplicates"|"prevent_duplicates"|"no_duplicates") ~ "=" ~ (HIBOU_true|HIBOU_false) }
 
@@ -84,7 +84,7 @@ TRACEGEN_LOGGER_opt = _{ TRACEGEN_LOGGER_gen_kind
 TRACEGEN_LOGGER_opts = { "[" ~ TRACEGEN_LOGGER_opt ~ ("," ~ TRACEGEN_LOGGER_opt)* ~ (",")? ~ "]" }
 OPTION_TRACEGEN_LOGGER = { "tracegen" ~ TRACEGEN_LOGGER_opts? }
 
-OPTION_NFAIT_LOGGER = { "nfa" | "nfait" }
+OPTION_NFAIT_LOGGER = { "nfait" | "nfa" }
 
 // ***
 
@@ -200,7 +200,7 @@ OPTION_GOAL_KIND = _{ OPTION_GOAL_pass | OPTION_GOAL_weakpass | HIBOU_none }
 OPTION_GOAL_DECL = { "goal" ~ "=" ~ OPTION_GOAL_KIND }
 // ***********************************************
 OPTION_LOCANA_depth = { ("max_look_ahead_depth" | "max"~"depth" | "lookahead" | "lookup") ~ "=" ~ (HIBOU_none | ARITH_INTEGER)}
-OPTION_LOCANA_modulo = { ("modulo" | "modulo_each_X_steps") ~ "=" ~ ARITH_INTEGER}
+OPTION_LOCANA_modulo = { ("modulo_each_X_steps" | "modulo") ~ "=" ~ ARITH_INTEGER}
 OPTION_LOCANA_select_all = { "all" | "All" | "ALL" }
 OPTION_LOCANA_select_dirty = { "dirty" | "Dirty" | "DIRTY" }
 OPTION_LOCANA_select = { "select" ~ "=" ~ (OPTION_LOCANA_select_all|OPTION_LOCANA_select_dirty) }
@@ -227,7 +227,7 @@ ANALYZE_OPTION_SECTION =  { "@analyze_option" ~ "{" ~
 
 OPTION_CANON_searchall_yes = { "search_all" ~ ("=" ~ HIBOU_true)? }
 OPTION_CANON_searchall_no = { "search_all" ~ "=" ~ HIBOU_false }
-OPTION_CANON_searchall = _{ OPTION_CANON_searchall_yes | OPTION_CANON_searchall_no }
+OPTION_CANON_searchall = _{ OPTION_CANON_searchall_no | OPTION_CANON_searchall_yes }
 // ***
 CANONIZE_OPTION_DECL = _{ GENERAL_OPTION_DECL
                             | OPTION_CANON_searchall }
-- 
2.43.0


From f5934678574c1fbba543fad28147efc88b56178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 25/51] fix: options which canonization does not have are
 refused instead of panicking

---
 src/io/input/hcf/canon/options.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/input/hcf/canon/options.rs b/src/io/input/hcf/canon/options.rs
index f4fbcda..a38fc5b 100644
--- a/src/io/input/hcf/canon/options.rs
+++ b/src/io/input/hcf/canon/options.rs
@@ -98,13 +98,13 @@ pub fn parse_canonize_options(gen_ctx: &GeneralContext,
                             loggers.push( Box::new(glogger));
                         },
                         _ => {
-                            panic!("what rule then ? : {:?}", logger_kind_pair.as_rule() );
+                            return Err(HibouParsingError::HcfSetupError("only graphic loggers can be used for canonization".to_string()));
                         }
                     }
                 }
             },
             _ => {
-                panic!("what rule then ? : {:?}", option_decl_pair.as_rule() );
+                return Err(HibouParsingError::HcfSetupError(format!("option not available for canonization : {:}", option_decl_pair.as_str())));
             }
         }
     }
-- 
2.43.0


From 4fd39c88ae857d00b74da718c25041e4e40811be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:41 +0000
Subject: [PATCH 26/51] fix: numbers of configuration files that are too large
 are refused instead of panicking

---
 src/io/input/hcf/ana/options.rs      | 26 +++++++++-----------------
 src/io/input/hcf/explo/options.rs    | 14 +++++---------
 src/io/input/hcf/loggers/tracegen.rs |  8 +++-----
 src/io/input/hcf/parser.rs           | 22 +++++++++++++++++++---
 4 files changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/io/input/hcf/ana/options.rs b/src/io/input/hcf/ana/options.rs
index 9abd205..39c1d39 100644
--- a/src/io/input/hcf/ana/options.rs
+++ b/src/io/input/hcf/ana/options.rs
@@ -30,7 +30,7 @@ use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 #[allow(unused_imports)]
 use pest::Parser;
 #[allow(unused_imports)]
-use crate::io::input::hcf::parser::{HcfParser,Rule};
+use crate::io::input::hcf::parser::{HcfParser,Rule,parse_number,parse_priority_level};
 
 
 use crate::process::ana::conf::AnalysisConfig;
@@ -299,20 +299,17 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
         match filter_pair.as_rule() {
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(AnalysisFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -353,8 +350,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 let priority_kind_pair = priority_contents.next().unwrap();
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
-                let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = parse_priority_level(priority_level_pair)?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
@@ -444,8 +440,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                                 max_look_ahead_depth = None;
                             },
                             Rule::ARITH_INTEGER => {
-                                let content_str : String = depth_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_number(&depth_pair)?;
                                 max_look_ahead_depth = Some(my_val);
                             },
                             _ => {
@@ -457,8 +452,7 @@ fn parse_local_analyses_config(locana_pair : Pair<Rule>) -> Result<Option<LocalA
                         let modulo_pair = inner_pair.into_inner().next().unwrap();
                         match modulo_pair.as_rule() {
                             Rule::ARITH_INTEGER => {
-                                let content_str : String = modulo_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                                let my_val : u32 = parse_number(&modulo_pair)?;
                                 modulo_each_X_steps = my_val;
                             },
                             _ => {
@@ -541,8 +535,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                 match inner.as_rule() {
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
-                        let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number(&content)?;
                         act_crit = SimulationActionCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
@@ -561,8 +554,7 @@ fn parse_simulation_config(simu_config_decl_pair : Pair<Rule>) -> Result<Simulat
                 match inner.as_rule() {
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_num => {
                         let content : Pair<Rule> = inner.into_inner().next().unwrap();
-                        let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number(&content)?;
                         loop_crit = SimulationLoopCriterion::SpecificNum(my_val);
                     },
                     Rule::OPTION_ANA_SIMULATE_CONFIG_crit_maxnum => {
diff --git a/src/io/input/hcf/explo/options.rs b/src/io/input/hcf/explo/options.rs
index 9efb551..9bdf20a 100644
--- a/src/io/input/hcf/explo/options.rs
+++ b/src/io/input/hcf/explo/options.rs
@@ -31,7 +31,7 @@ use crate::io::input::hcf::loggers::tracegen::parse_tracegen_logger;
 use pest::Parser;
 use crate::io::input::hcf::loggers::nfait::parse_nfait_logger;
 #[allow(unused_imports)]
-use crate::io::input::hcf::parser::{HcfParser,Rule};
+use crate::io::input::hcf::parser::{HcfParser,Rule,parse_number,parse_priority_level};
 
 use crate::process::explo::conf::ExplorationConfig;
 use crate::process::explo::filter::elim::ExplorationFilterEliminationKind;
@@ -196,20 +196,17 @@ fn parse_filters(filters_decl_pair : Pair<Rule>) -> Result<Vec<Box<dyn AbstractF
         match filter_pair.as_rule() {
             Rule::OPTION_FILTER_MAX_DEPTH => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxProcessDepth(my_val)));
             },
             Rule::OPTION_FILTER_MAX_LOOP_DEPTH  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxLoopInstanciation(my_val)));
             },
             Rule::OPTION_FILTER_MAX_NODE_NUMBER  => {
                 let content = filter_pair.into_inner().next().unwrap();
-                let content_str : String = content.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let my_val : u32 = content_str.parse::<u32>().unwrap();
+                let my_val : u32 = parse_number(&content)?;
                 filters.push(Box::new(ExplorationFilter::MaxNodeNumber(my_val)));
             },
             _ => {
@@ -251,8 +248,7 @@ fn parse_priorities(priorities_decl_pair : Pair<Rule>) -> Result<GenericProcessP
                 let priority_kind_pair = priority_contents.next().unwrap();
                 // ***
                 let priority_level_pair = priority_contents.next().unwrap();
-                let priority_level_str : String = priority_level_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                let priority_level : i32 = priority_level_str.parse::<i32>().unwrap();
+                let priority_level : i32 = parse_priority_level(priority_level_pair)?;
                 // ***
                 match priority_kind_pair.as_rule() {
                     Rule::OPTION_PRIORITY_emission => {
diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 1c2443e..7943356 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -32,7 +32,7 @@ use crate::io::input::error::HibouParsingError;
 #[allow(unused_imports)]
 use pest::Parser;
 #[allow(unused_imports)]
-use crate::io::input::hcf::parser::{HcfParser,Rule};
+use crate::io::input::hcf::parser::{HcfParser,Rule,parse_number};
 
 use crate::loggers::tracegen::object::TraceGenLoggerObject;
 use crate::loggers::tracegen::printer::{MultiTraceProcessPrinter, TracegenProcessLoggerGeneration};
@@ -86,14 +86,12 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     },
                     Rule::TRACEGEN_LOGGER_depth => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
-                        let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number(&depth_int_pair)?;
                         generation = TracegenProcessLoggerGeneration::atExactDepth(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
-                        let content_str : String = depth_int_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
-                        let my_val : u32 = content_str.parse::<u32>().unwrap();
+                        let my_val : u32 = parse_number(&depth_int_pair)?;
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
diff --git a/src/io/input/hcf/parser.rs b/src/io/input/hcf/parser.rs
index d780532..95eb302 100644
--- a/src/io/input/hcf/parser.rs
+++ b/src/io/input/hcf/parser.rs
@@ -25,6 +25,22 @@ use pest::Parser;
 #[grammar = "io/input/hcf/hcf_syntax.pest"]
 pub struct HcfParser;
 
-
-
-
+use std::fmt::Display;
+use std::str::FromStr;
+use pest::iterators::Pair;
+use crate::io::input::error::HibouParsingError;
+
+/** reads the number written at "number_pair" **/
+pub fn parse_number<T : FromStr>(number_pair : &Pair<Rule>) -> Result<T,HibouParsingError>
+    where T::Err : Display {
+    let number_str : String = number_pair.as_str().chars().filter(|c| !c.is_whitespace()).collect();
+    number_str.parse::<T>().map_err(|e| HibouParsingError::HcfSetupError(format!("'{:}' : {:}", number_str, e)))
+}
+
+/** reads the possibly negative number written at "level_pair" **/
+pub fn parse_priority_level(level_pair : Pair<Rule>) -> Result<i32,HibouParsingError> {
+    let is_negative = level_pair.as_str().starts_with('-');
+    let magnitude : i64 = parse_number(&level_pair.into_inner().next().unwrap())?;
+    let level = if is_negative { -magnitude } else { magnitude };
+    i32::try_from(level).map_err(|e| HibouParsingError::HcfSetupError(format!("'{:}' : {:}", level, e)))
+}
-- 
2.43.0


From 3a0911fab4c8745e9ae6ddf61101e36e5ebf9a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 27/51] fix: generating traces with a depth modulo 0 is refused
 instead of dividing by zero

---
 src/io/input/hcf/loggers/tracegen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/input/hcf/loggers/tracegen.rs b/src/io/input/hcf/loggers/tracegen.rs
index 7943356..3a93466 100644
--- a/src/io/input/hcf/loggers/tracegen.rs
+++ b/src/io/input/hcf/loggers/tracegen.rs
@@ -92,6 +92,9 @@ pub fn parse_tracegen_logger<Conf : AbstractProcessConfiguration>(logger_id : u3
                     Rule::TRACEGEN_LOGGER_modulo => {
                         let depth_int_pair = opt_pair.into_inner().next().unwrap();
                         let my_val : u32 = parse_number(&depth_int_pair)?;
+                        if my_val == 0 {
+                            return Err( HibouParsingError::HcfSetupError("the depth modulo for generating traces cannot be 0".to_string()) );
+                        }
                         generation = TracegenProcessLoggerGeneration::atDepthModulo(my_val);
                     },
                     Rule::TRACEGEN_LOGGER_partition_discrete => {
-- 
2.43.0


From be850c2f27bf85c3a192454712e7b893f1a4d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:10 +0000
Subject: [PATCH 28/51] fix: large simulation budgets do not overflow when
 multiplied by the length of the multi-trace

---
 src/process/ana/param/anakind.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/process/ana/param/anakind.rs b/src/process/ana/param/anakind.rs
index fda2e0e..93b39fa 100644
--- a/src/process/ana/param/anakind.rs
+++ b/src/process/ana/param/anakind.rs
@@ -118,7 +118,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
@@ -139,7 +139,7 @@ impl SimulationConfiguration {
             }
         }
         if self.multiply_by_multitrace_length {
-            return num * (multi_trace_len as u32);
+            return num.saturating_mul(multi_trace_len as u32);
         } else {
             return num;
         }
-- 
2.43.0


From 5588ec8ce608dd21a1effb34f23a761876d15e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 29/51] fix: large priorities do not overflow

---
 src/process/ana/priorities.rs   | 12 ++++++------
 src/process/explo/priorities.rs |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/process/ana/priorities.rs b/src/process/ana/priorities.rs
index d5d2ab0..8c8b18e 100644
--- a/src/process/ana/priorities.rs
+++ b/src/process/ana/priorities.rs
@@ -69,18 +69,18 @@ impl AbstractPriorities<AnalysisStepKind> for AnalysisPriorities {
     fn get_priority_of_step(&self, step: &AnalysisStepKind) -> i32 {
         match *step {
             AnalysisStepKind::EliminateNoLongerObserved(ref to_elim) => {
-                return self.elim*(to_elim.len() as i32);
+                return self.elim.saturating_mul(to_elim.len() as i32);
             },
             AnalysisStepKind::Execute(ref frt_elt,ref consu_set,ref sim_map) => {
                 let mut priority : i32 = 0;
                 // ***
                 let (num_em,num_rc) = TraceAction::get_actions_kinds(&frt_elt.target_actions);
-                priority += num_em*self.emission;
-                priority += num_rc*self.reception;
+                priority = priority.saturating_add(self.emission.saturating_mul(num_em));
+                priority = priority.saturating_add(self.reception.saturating_mul(num_rc));
                 // ***
-                priority += self.multi_rdv * ( frt_elt.target_actions.len() as i32);
-                priority += self.in_loop * ( frt_elt.max_loop_depth as i32);
-                priority += self.simu * (sim_map.len() as i32);
+                priority = priority.saturating_add(self.multi_rdv.saturating_mul(frt_elt.target_actions.len() as i32));
+                priority = priority.saturating_add(self.in_loop.saturating_mul(frt_elt.max_loop_depth as i32));
+                priority = priority.saturating_add(self.simu.saturating_mul(sim_map.len() as i32));
                 // ***
                 return priority;
             }
diff --git a/src/process/explo/priorities.rs b/src/process/explo/priorities.rs
index 016ec05..c59a886 100644
--- a/src/process/explo/priorities.rs
+++ b/src/process/explo/priorities.rs
@@ -62,11 +62,11 @@ impl AbstractPriorities<ExplorationStepKind> for ExplorationPriorities {
                 let mut priority : i32 = 0;
                 // ***
                 let (num_em,num_rc) = TraceAction::get_actions_kinds(&frt_elt.target_actions);
-                priority += num_em*self.emission;
-                priority += num_rc*self.reception;
+                priority = priority.saturating_add(self.emission.saturating_mul(num_em));
+                priority = priority.saturating_add(self.reception.saturating_mul(num_rc));
                 // ***
-                priority += self.multi_rdv * ( frt_elt.target_actions.len() as i32);
-                priority += self.in_loop * ( frt_elt.max_loop_depth as i32);
+                priority = priority.saturating_add(self.multi_rdv.saturating_mul(frt_elt.target_actions.len() as i32));
+                priority = priority.saturating_add(self.in_loop.saturating_mul(frt_elt.max_loop_depth as i32));
                 // ***
                 return priority;
             }
-- 
2.43.0


From 5c42a5f549a28729f3b057bc08a9ed62ba6e80b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 30/51] fix: co-localizations without lifelines are written in
 a form which can be read back

---
 src/io/output/to_hfiles/trace/multi_trace.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/output/to_hfiles/trace/multi_trace.rs b/src/io/output/to_hfiles/trace/multi_trace.rs
index 964e746..a92eb96 100644
--- a/src/io/output/to_hfiles/trace/multi_trace.rs
+++ b/src/io/output/to_hfiles/trace/multi_trace.rs
@@ -37,7 +37,12 @@ pub fn multi_trace_as_htf_encoding(gen_ctx : &GeneralContext,
         for lf_id in coloc_lfs.iter().sorted() {
             lf_names.push( gen_ctx.get_lf_name(*lf_id).unwrap() );
         }
-        canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        if lf_names.is_empty() {
+            // a co-localization without any lifeline
+            canal_string.push_str( "[#any] " );
+        } else {
+            canal_string.push_str( &format!( "[{:}] ", lf_names.join(",")) );
+        }
         // ***
         let mut trace_text_elements = vec![];
         for actions in canal_trace {
-- 
2.43.0


From 3b2dc9d28e49207b78f53a7feeedff84de06703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 31/51] fix: wide random slices keep at least a third of each
 component

---
 src/trace_manip/slice/random.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index f8b47c6..ab4f586 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -16,7 +16,6 @@ limitations under the License.
 
 
 
-use std::cmp::min;
 use std::collections::HashSet;
 use std::path::PathBuf;
 
@@ -111,9 +110,6 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
 }
 
 fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usize,usize) {
-    if length <= 4 {
-        return get_any_cut(rng,length,kind);
-    }
     let (id1,id2) : (usize,usize);
     match kind {
         &SliceKind::Slice => {
@@ -124,11 +120,11 @@ fn get_wider_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (us
         &SliceKind::Prefix => {
             let rng_indices = Uniform::from(0..((length/2)+ 1) );
             id1 = 0;
-            id2 = min((length/2) + rng_indices.sample(rng), length );
+            id2 = length - rng_indices.sample(rng);
         },
         &SliceKind::Suffix => {
             let rng_indices = Uniform::from(0..((length/2) + 1) );
-            id1 = length - rng_indices.sample(rng);
+            id1 = rng_indices.sample(rng);
             id2 = length;
         }
     }
-- 
2.43.0


From 74c156707a33ea2be29be16cdbe41cc8de6041c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 32/51] fix: random slices may keep the last action of a
 component

---
 src/trace_manip/slice/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/slice/random.rs b/src/trace_manip/slice/random.rs
index ab4f586..831f3f5 100644
--- a/src/trace_manip/slice/random.rs
+++ b/src/trace_manip/slice/random.rs
@@ -84,7 +84,7 @@ fn get_any_cut(rng : &mut ThreadRng, length : usize, kind : &SliceKind) -> (usiz
     if length == 0 {
         return (0,0);
     }
-    let rng_indices = Uniform::from(0..length );
+    let rng_indices = Uniform::from(0..(length + 1) );
     // ***
     let (id1,id2) : (usize,usize);
     match kind {
-- 
2.43.0


From 563e692db3451d3f2032112ef4398ad45f1f882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 33/51] fix: at most one noise action per component is inserted
 when so asked

---
 src/trace_manip/mutate/insert_noise.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index ba59ec5..851a8db 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -94,7 +94,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.max(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
@@ -116,6 +116,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
             } else {
                 mutate_vector_by_insert(&mut rng,component,btreeset!{to_insert});
             }
+            seen_colocs.insert(coloc_id);
             rem_num_inserts -= 1;
         }
     }
-- 
2.43.0


From 742ebe06d7e1c436f44f7d438a08986a5da259a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 34/51] fix: inserting noise where there is no lifeline or
 message for it does not panic

---
 src/trace_manip/mutate/insert_noise.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index 851a8db..a626837 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -91,21 +91,29 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
                                    max_num_inserts : u32,
                                    one_per_compo_max : bool,
                                    only_at_end : bool) -> MultiTrace {
+    // noise can only be inserted on the lifelines of a component, with a message of the signature
+    let mut coloc_ids : Vec<usize> = vec![];
+    if gen_ctx.get_ms_num() > 0 {
+        coloc_ids.extend( (0..multi_trace.len()).filter(|id| !co_localizations.get_coloc_lfs_ids(*id).is_empty()) );
+    }
+    if coloc_ids.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rem_num_inserts : u32;
     if one_per_compo_max {
-        rem_num_inserts = max_num_inserts.min(multi_trace.len() as u32);
+        rem_num_inserts = max_num_inserts.min(coloc_ids.len() as u32);
     } else {
         rem_num_inserts = max_num_inserts;
     }
     // ***
     let mut rng = rand::thread_rng();
-    let rng_coloc_indices = Uniform::from(0..multi_trace.len() );
+    let rng_coloc_indices = Uniform::from(0..coloc_ids.len() );
     // ***
     let mut seen_colocs : HashSet<usize> = hashset!{};
     let mut mutated_mt = multi_trace.clone();
     while rem_num_inserts > 0 {
-        let coloc_id : usize = rng_coloc_indices.sample(&mut rng);
+        let coloc_id : usize = coloc_ids[rng_coloc_indices.sample(&mut rng)];
         if one_per_compo_max && seen_colocs.contains(&coloc_id) {
             // nothing
         } else {
-- 
2.43.0


From 98c3daf76a518168061d78a6c298e0b9a0afaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 35/51] fix: noise may also be inserted after the last action
 of a component

---
 src/trace_manip/mutate/insert_noise.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/insert_noise.rs b/src/trace_manip/mutate/insert_noise.rs
index a626837..bf78cdd 100644
--- a/src/trace_manip/mutate/insert_noise.rs
+++ b/src/trace_manip/mutate/insert_noise.rs
@@ -136,7 +136,7 @@ fn mutate_by_inserting_noise(gen_ctx : &GeneralContext,
 fn mutate_vector_by_insert<T>(rng : &mut ThreadRng, vector : &mut Vec<T>, to_insert : T) {
     let vec_length = vector.len();
     if vec_length > 0 {
-        let mut vec_indices : Vec<usize> = (0..vec_length).collect();
+        let mut vec_indices : Vec<usize> = (0..(vec_length + 1)).collect();
         vec_indices.shuffle(rng);
         vector.insert(*vec_indices.get(0).unwrap(), to_insert);
     } else {
-- 
2.43.0


From 57f599679a36498d513761eb1ace8396da859679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 36/51] fix: at most the requested number of components is
 swapped, without going out of bounds

---
 src/trace_manip/mutate/swap_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trace_manip/mutate/swap_component.rs b/src/trace_manip/mutate/swap_component.rs
index 5830160..034d7f0 100644
--- a/src/trace_manip/mutate/swap_component.rs
+++ b/src/trace_manip/mutate/swap_component.rs
@@ -65,7 +65,7 @@ fn mutate_by_swapping_components(multi_trace_1 : &MultiTrace, multi_trace_2 : &M
     let mut compos_indices : Vec<usize> = (0..(num_compos as usize)).collect();
     compos_indices.shuffle(&mut rng);
     // ***
-    let mut rem_num_swaps = max_num_swaps.max(num_compos - 1);
+    let mut rem_num_swaps = max_num_swaps.min(num_compos.saturating_sub(1));
     // ***
     let mut mutated_mt = multi_trace_1.clone();
     while rem_num_swaps > 0 {
-- 
2.43.0


From ffbb0a6b24afb6f38a9ef57825aa98f3a7af1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 37/51] fix: the parent folder of a mutant with removed actions
 is created

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index eb81f62..c839f0f 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -15,6 +15,7 @@ limitations under the License.
 */
 
 
+use std::fs;
 use std::path::PathBuf;
 use rand::rngs::ThreadRng;
 use rand::seq::SliceRandom;
@@ -39,6 +40,8 @@ pub fn generate_remove_actions_mutant(gen_ctx : &GeneralContext,
             [&file_name].iter().collect()
         },
         Some( parent ) => {
+            // creates directory
+            fs::create_dir_all(parent).unwrap();
             [parent, &file_name].iter().collect()
         }
     };
-- 
2.43.0


From fb9add7314a9a111786d38260a9f216e6c5d7934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 38/51] fix: mutating a multi-trace without components does not
 panic

---
 src/trace_manip/mutate/remove_actions.rs | 3 +++
 src/trace_manip/mutate/swap_actions.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/trace_manip/mutate/remove_actions.rs b/src/trace_manip/mutate/remove_actions.rs
index c839f0f..f5f0d3a 100644
--- a/src/trace_manip/mutate/remove_actions.rs
+++ b/src/trace_manip/mutate/remove_actions.rs
@@ -61,6 +61,9 @@ fn mutate_by_removing_actions(gen_ctx : &GeneralContext,
                              co_localizations : &CoLocalizations,
                              multi_trace : &MultiTrace,
                              max_num_removes : u32) -> MultiTrace {
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rem_num_removes = max_num_removes;
     // ***
diff --git a/src/trace_manip/mutate/swap_actions.rs b/src/trace_manip/mutate/swap_actions.rs
index 34bbf25..b1d5957 100644
--- a/src/trace_manip/mutate/swap_actions.rs
+++ b/src/trace_manip/mutate/swap_actions.rs
@@ -59,6 +59,9 @@ pub fn generate_swap_actions_mutant(gen_ctx : &GeneralContext,
 
 
 fn mutate_by_swapping_actions(multi_trace : &MultiTrace, max_num_swaps : u32) -> MultiTrace {
+    if multi_trace.is_empty() {
+        return multi_trace.clone();
+    }
     // ***
     let mut rem_num_swaps = max_num_swaps.min(multi_trace_max_swap(multi_trace));
     // ***
-- 
2.43.0


From 94fb609fd2d43a218c49ecdafbf0efa9242a65f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:04 +0000
Subject: [PATCH 39/51] fix: malformed numbers on the command line are refused
 with an error

---
 src/ui/commands/cli_glosem.rs                 |  5 +++-
 src/ui/commands/cli_mutate_insert_noise.rs    |  5 +++-
 src/ui/commands/cli_mutate_remove_actions.rs  |  5 +++-
 src/ui/commands/cli_mutate_swap_actions.rs    |  5 +++-
 src/ui/commands/cli_mutate_swap_components.rs |  5 +++-
 src/ui/commands/cli_nfa_experiment.rs         | 10 +++++--
 src/ui/commands/cli_nfa_experiment2.rs        | 30 +++++++++++++++----
 src/ui/commands/cli_rng_gen_interactions.rs   | 25 ++++++++++++----
 src/ui/commands/cli_slice.rs                  |  5 +++-
 9 files changed, 76 insertions(+), 19 deletions(-)

diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 1380d4a..0ab38ce 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -73,7 +73,10 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                             max_loop_depth = 1;
                         },
                         Some( as_str ) => {
-                            max_loop_depth = as_str.trim().parse::<u32>().unwrap();
+                            max_loop_depth = match as_str.trim().parse::<u32>() {
+                                Ok( number ) => number,
+                                Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                            };
                         }
                     }
 
diff --git a/src/ui/commands/cli_mutate_insert_noise.rs b/src/ui/commands/cli_mutate_insert_noise.rs
index c3b932b..8f10cd7 100644
--- a/src/ui/commands/cli_mutate_insert_noise.rs
+++ b/src/ui/commands/cli_mutate_insert_noise.rs
@@ -53,7 +53,10 @@ pub fn cli_mutate_insert_noise(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_inserts") {
                         let extracted = matches.value_of("max_num_inserts").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_inserts = content_str.parse::<u32>().unwrap();
+                        max_num_inserts = match content_str.parse::<u32>() {
+                            Ok( number ) => number,
+                            Err( e ) => { return (vec![format!("'{:}' : {:}", content_str, e)],1); }
+                        };
                         // ***
                     } else {
                         max_num_inserts = 1;
diff --git a/src/ui/commands/cli_mutate_remove_actions.rs b/src/ui/commands/cli_mutate_remove_actions.rs
index 7c028bf..a9a426a 100644
--- a/src/ui/commands/cli_mutate_remove_actions.rs
+++ b/src/ui/commands/cli_mutate_remove_actions.rs
@@ -52,7 +52,10 @@ pub fn cli_mutate_remove_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     let max_num_removes : u32 = if matches.is_present("max_num_removes") {
                         let extracted = matches.value_of("max_num_removes").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        content_str.parse::<u32>().unwrap()
+                        match content_str.parse::<u32>() {
+                            Ok( number ) => number,
+                            Err( e ) => { return (vec![format!("'{:}' : {:}", content_str, e)],1); }
+                        }
                     } else {
                         1
                     };
diff --git a/src/ui/commands/cli_mutate_swap_actions.rs b/src/ui/commands/cli_mutate_swap_actions.rs
index eab0b7f..22776f5 100644
--- a/src/ui/commands/cli_mutate_swap_actions.rs
+++ b/src/ui/commands/cli_mutate_swap_actions.rs
@@ -52,7 +52,10 @@ pub fn cli_mutate_swap_actions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok( number ) => number,
+                            Err( e ) => { return (vec![format!("'{:}' : {:}", content_str, e)],1); }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
diff --git a/src/ui/commands/cli_mutate_swap_components.rs b/src/ui/commands/cli_mutate_swap_components.rs
index 2f3dfa0..cd28936 100644
--- a/src/ui/commands/cli_mutate_swap_components.rs
+++ b/src/ui/commands/cli_mutate_swap_components.rs
@@ -60,7 +60,10 @@ pub fn cli_mutate_swap_components(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("max_num_swap") {
                         let extracted = matches.value_of("max_num_swap").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        max_num_swap = content_str.parse::<u32>().unwrap();
+                        max_num_swap = match content_str.parse::<u32>() {
+                            Ok( number ) => number,
+                            Err( e ) => { return (vec![format!("'{:}' : {:}", content_str, e)],1); }
+                        };
                         // ***
                     } else {
                         max_num_swap = 1;
diff --git a/src/ui/commands/cli_nfa_experiment.rs b/src/ui/commands/cli_nfa_experiment.rs
index 329cafa..530fc35 100644
--- a/src/ui/commands/cli_nfa_experiment.rs
+++ b/src/ui/commands/cli_nfa_experiment.rs
@@ -61,7 +61,10 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                             3
                         },
                         Some( as_str ) => {
-                            as_str.trim().parse::<u32>().unwrap()
+                            match as_str.trim().parse::<u32>() {
+                                Ok( number ) => number,
+                                Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                            }
                         }
                     };
 
@@ -70,7 +73,10 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                             10
                         },
                         Some( as_str ) => {
-                            as_str.trim().parse::<usize>().unwrap()
+                            match as_str.trim().parse::<usize>() {
+                                Ok( number ) => number,
+                                Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                            }
                         }
                     };
 
diff --git a/src/ui/commands/cli_nfa_experiment2.rs b/src/ui/commands/cli_nfa_experiment2.rs
index 3ffcdad..6fbf919 100644
--- a/src/ui/commands/cli_nfa_experiment2.rs
+++ b/src/ui/commands/cli_nfa_experiment2.rs
@@ -56,7 +56,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     1
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -65,7 +68,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     350
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -74,7 +80,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     10
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -83,7 +92,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     100
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -92,7 +104,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     6
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -101,7 +116,10 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                     1
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u64>().unwrap()
+                    match as_str.trim().parse::<u64>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index cdfe401..be9a727 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -64,7 +64,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     350
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -73,7 +76,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     number_of_interactions*3
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -82,7 +88,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     10
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -91,7 +100,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     100
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u32>().unwrap()
+                    match as_str.trim().parse::<u32>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
@@ -100,7 +112,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                     0
                 },
                 Some( as_str ) => {
-                    as_str.trim().parse::<u64>().unwrap()
+                    match as_str.trim().parse::<u64>() {
+                        Ok( number ) => number,
+                        Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
+                    }
                 }
             };
 
diff --git a/src/ui/commands/cli_slice.rs b/src/ui/commands/cli_slice.rs
index 78aa12a..4ef4034 100644
--- a/src/ui/commands/cli_slice.rs
+++ b/src/ui/commands/cli_slice.rs
@@ -68,7 +68,10 @@ pub fn cli_slice(matches : &ArgMatches) -> (Vec<String>,u32) {
                     if matches.is_present("random") {
                         let extracted = matches.value_of("random").unwrap();
                         let content_str : String = extracted.chars().filter(|c| !c.is_whitespace()).collect();
-                        let num_random_slices : u32 = content_str.parse::<u32>().unwrap();
+                        let num_random_slices : u32 = match content_str.parse::<u32>() {
+                            Ok( number ) => number,
+                            Err( e ) => { return (vec![format!("'{:}' : {:}", content_str, e)],1); }
+                        };
                         // ***
                         let wide_only : bool;
                         if matches.is_present("wide") {
-- 
2.43.0


From 763eb250653819b3133bc4e4195f10fd1f716643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 40/51] fix: automata keep the letters of synchronous
 communications

---
 src/nfa_translation/compositional.rs       | 38 +++++++++++++---------
 src/nfa_translation/experiments.rs         |  6 ++--
 src/nfa_translation/experiments2.rs        |  2 +-
 src/nfa_translation/get_nfa_from_logger.rs | 10 +++---
 src/ui/commands/cli_get_metrics.rs         |  4 +--
 src/ui/commands/cli_glosem.rs              |  4 +--
 src/ui/commands/cli_nfa_ana.rs             |  4 +--
 7 files changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/nfa_translation/compositional.rs b/src/nfa_translation/compositional.rs
index 2c3a01e..4f41c45 100644
--- a/src/nfa_translation/compositional.rs
+++ b/src/nfa_translation/compositional.rs
@@ -48,64 +48,70 @@ pub fn get_nfa_from_interaction_via_composition(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                                 base_alphabet : Vec<BTreeSet<TraceAction>>) -> (AutNFA<usize>,Duration) {
     let now = Instant::now();
-    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,base_alphabet);
+    let mut alphabet = base_alphabet;
+    let nfa = get_nfa_from_interaction_via_composition_rec(gen_ctx,int,&mut alphabet);
     let elapsed_get_nfa = now.elapsed();
     (nfa,elapsed_get_nfa)
 }
 
 fn get_nfa_from_interaction_via_composition_rec(gen_ctx : &GeneralContext,
                                             int : &Interaction,
-                                                alphabet : Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
+                                                alphabet : &mut Vec<BTreeSet<TraceAction>>) -> AutNFA<usize> {
     if interaction_has_only_strict_and_seq(int) {
-        let (nfa,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet);
+        let (nfa,printer,_) = get_nfa_from_interaction_exploration(gen_ctx,int,alphabet.clone());
+        *alphabet = printer.index_to_action_map;
         nfa
     } else {
         match int {
             Interaction::Alt(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.unite(nfa2).unwrap().trim()
             },
             Interaction::Par(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.interleave(nfa2).unwrap().trim()
             },
             Interaction::Seq(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
             Interaction::Strict(i1,i2) => {
-                let nfa1 = get_nfa_from_interaction_via_composition_rec(
+                let mut nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 let nfa2 = get_nfa_from_interaction_via_composition_rec(gen_ctx,
                                                                         i2,
-                                                                        alphabet.clone());
+                                                                        alphabet);
+                nfa1.alphabet = nfa2.alphabet.clone();
                 nfa1.concatenate(nfa2).unwrap().trim()
             },
             Interaction::Loop(lk,i1) => {
                 let nfa1 = get_nfa_from_interaction_via_composition_rec(
                     gen_ctx,
                     i1,
-                    alphabet.clone());
+                    alphabet);
                 match lk {
                     LoopKind::SStrictSeq => {
                         nfa1.kleene().trim()
diff --git a/src/nfa_translation/experiments.rs b/src/nfa_translation/experiments.rs
index 78fd324..9ceacdb 100644
--- a/src/nfa_translation/experiments.rs
+++ b/src/nfa_translation/experiments.rs
@@ -66,14 +66,16 @@ pub fn run_nfa_generation_experiment(int : Interaction,
                                      num_tries_for_median : u32,
                                      state_lim : usize) -> NfaGenerationExperimentResults {
 
-    let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
+    let mut alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
 
     let mut nfa_operational = AutNFA::new_void_object(hashset!{0});
     let mut nfa_operational_times = vec![];
     for _ in 0..num_tries_for_median {
-        let (nfa,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
+        let (nfa,printer,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                   &int,
                                                                   alphabet.clone());
+        // so that the compositional method numbers the letters likewise
+        alphabet = printer.index_to_action_map;
         let in_micros = duration.as_micros();
         println!("via exploration translated interaction into nfa of {:} states in {:}μs", nfa.transitions.len(), in_micros);
         nfa_operational = nfa;
diff --git a/src/nfa_translation/experiments2.rs b/src/nfa_translation/experiments2.rs
index 6a426bf..dbb0151 100644
--- a/src/nfa_translation/experiments2.rs
+++ b/src/nfa_translation/experiments2.rs
@@ -157,7 +157,7 @@ pub fn get_nfa_metrics(gen_ctx : &GeneralContext,
     let mut nfa_operational = AutNFA::new_void_object(hashset!{0});
     let mut nfa_operational_times = vec![];
     for _ in 0..num_tries_for_median {
-        let (nfa,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
+        let (nfa,_,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                   &i,
                                                                   alphabet.clone());
         let in_micros = duration.as_micros();
diff --git a/src/nfa_translation/get_nfa_from_logger.rs b/src/nfa_translation/get_nfa_from_logger.rs
index 0caa60c..3cbd259 100644
--- a/src/nfa_translation/get_nfa_from_logger.rs
+++ b/src/nfa_translation/get_nfa_from_logger.rs
@@ -17,7 +17,7 @@ limitations under the License.
 
 
 
-use std::collections::{BTreeSet, HashSet};
+use std::collections::BTreeSet;
 use std::time::{Duration, Instant};
 use autour_core::nfa::nfa::AutNFA;
 use autour_core::traits::translate::AutTranslatable;
@@ -41,9 +41,8 @@ use crate::process::explo::step::ExplorationStepKind;
 pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
                                             int : &Interaction,
                                             base_alphabet : Vec<BTreeSet<TraceAction>>)
-            -> (AutNFA<usize>,Duration) {
+            -> (AutNFA<usize>,ActionNFAITPrinter,Duration) {
 
-    let usize_alphabet : HashSet<usize> = (0..base_alphabet.len()).collect();
     let max_loop_depth = int.total_loop_num()*2;
     let nfa_logger = GenericNFAITLogger::new(
         ActionNFAITPrinter::new(base_alphabet,
@@ -80,7 +79,8 @@ pub fn get_nfa_from_interaction_exploration(gen_ctx : &GeneralContext,
     let mut nfa = nfa_logger.get_nfait().to_nfa();
     let printer = nfa_logger.builder_printer.clone();
     // ***
-    nfa.alphabet = usize_alphabet;
+    // the letters include the multi-actions met during the exploration (synchronous communications)
+    nfa.alphabet = (0..printer.index_to_action_map.len()).collect();
     // ***
-    return (nfa, elapsed_get_nfa);
+    return (nfa, printer, elapsed_get_nfa);
 }
\ No newline at end of file
diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 705c52c..650cf91 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -66,7 +66,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let mut nfa = AutNFA::new_void_object(hashset!{0});
                             let mut durations = vec![];
                             for _ in 0..5 {
-                                let (got_nfa,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
+                                let (got_nfa,_,duration) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                           &int,
                                                                                           alphabet.clone());
                                 let in_micros = duration.as_micros();
@@ -89,7 +89,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                         },
                         "minDFA" => {
                             let alphabet = get_alphabet_from_gen_ctx(&gen_ctx);
-                            let (nfa,_) = get_nfa_from_interaction_exploration(&gen_ctx,
+                            let (nfa,_,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
                             let dfa = nfa.to_dfa();
diff --git a/src/ui/commands/cli_glosem.rs b/src/ui/commands/cli_glosem.rs
index 0ab38ce..c9b5e57 100644
--- a/src/ui/commands/cli_glosem.rs
+++ b/src/ui/commands/cli_glosem.rs
@@ -80,13 +80,11 @@ pub fn cli_glosem(matches : &ArgMatches) -> (Vec<String>,u32) {
                         }
                     }
 
-                    let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                    let (nfa,printer,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
                         &gen_ctx,
                         &int,
                         get_alphabet_from_gen_ctx(&gen_ctx));
 
-                    let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
-
                     let mut ret_print = vec![];
                     // ***
                     ret_print.push( "".to_string());
diff --git a/src/ui/commands/cli_nfa_ana.rs b/src/ui/commands/cli_nfa_ana.rs
index eb34da5..0bf7e20 100644
--- a/src/ui/commands/cli_nfa_ana.rs
+++ b/src/ui/commands/cli_nfa_ana.rs
@@ -83,13 +83,11 @@ pub fn cli_nfa_ana(matches : &ArgMatches) -> (Vec<String>,u32) {
                             }
                             let trace = multi_trace.remove(0);
 
-                            let (nfa,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
+                            let (nfa,printer,elapsed_get_nfa) = get_nfa_from_interaction_exploration(
                                 &gen_ctx,
                                 &int,
                                 get_alphabet_from_gen_ctx(&gen_ctx));
 
-                            let printer = ActionNFAITPrinter::new(get_alphabet_from_gen_ctx(&gen_ctx),gen_ctx);
-
                             if matches.is_present("draw_transformation") {
                                 let int_name = format!("{}_int",file_name);
                                 let nfa_name = format!("{}_nfa",file_name);
-- 
2.43.0


From 0e29553bba0cb8768fd1f8b634f0de16225c3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 41/51] fix: the minDFA metrics are those of the minimal
 automaton

---
 src/ui/commands/cli_get_metrics.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_get_metrics.rs b/src/ui/commands/cli_get_metrics.rs
index 650cf91..3b0b067 100644
--- a/src/ui/commands/cli_get_metrics.rs
+++ b/src/ui/commands/cli_get_metrics.rs
@@ -16,6 +16,7 @@ limitations under the License.
 
 
 use autour_core::nfa::nfa::AutNFA;
+use autour_core::traits::transform::AutTransformable;
 use autour_core::traits::translate::AutTranslatable;
 use clap::ArgMatches;
 use crate::core::language::syntax::metrics::InteractionMetrics;
@@ -92,7 +93,7 @@ pub fn cli_get_metrics(matches : &ArgMatches) -> (Vec<String>, u32) {
                             let (nfa,_,_) = get_nfa_from_interaction_exploration(&gen_ctx,
                                                                                &int,
                                                                                alphabet.clone());
-                            let dfa = nfa.to_dfa();
+                            let dfa = nfa.to_dfa().minimize();
                             let num_states = dfa.transitions.len();
                             let num_edges = dfa.transitions.iter()
                                 .fold(0,|x,t|
-- 
2.43.0


From a74be8ef204b4bf6b79ffe55c593d57f2928573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 42/51] fix: nfa experiments require at least one try

---
 src/ui/commands/cli_nfa_experiment.rs  | 1 +
 src/ui/commands/cli_nfa_experiment2.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ui/commands/cli_nfa_experiment.rs b/src/ui/commands/cli_nfa_experiment.rs
index 530fc35..835ebbd 100644
--- a/src/ui/commands/cli_nfa_experiment.rs
+++ b/src/ui/commands/cli_nfa_experiment.rs
@@ -62,6 +62,7 @@ pub fn cli_nfa_experiment(matches : &ArgMatches) -> (Vec<String>,u32) {
                         },
                         Some( as_str ) => {
                             match as_str.trim().parse::<u32>() {
+                                Ok( 0 ) => { return (vec!["at least one try is required".to_string()],1); },
                                 Ok( number ) => number,
                                 Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
                             }
diff --git a/src/ui/commands/cli_nfa_experiment2.rs b/src/ui/commands/cli_nfa_experiment2.rs
index 6fbf919..c399778 100644
--- a/src/ui/commands/cli_nfa_experiment2.rs
+++ b/src/ui/commands/cli_nfa_experiment2.rs
@@ -57,6 +57,7 @@ pub fn cli_nfa_experiment2(matches : &ArgMatches) -> (Vec<String>,u32) {
                 },
                 Some( as_str ) => {
                     match as_str.trim().parse::<u32>() {
+                        Ok( 0 ) => { return (vec!["at least one try is required".to_string()],1); },
                         Ok( number ) => number,
                         Err( e ) => { return (vec![format!("'{:}' : {:}", as_str.trim(), e)],1); }
                     }
-- 
2.43.0


From d6bf456712c47c27ff0554d4649040eb2cf15fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 43/51] fix: PlantUML sequence diagrams name strict and weak
 loops as such

---
 src/plantuml/sequence.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/sequence.rs b/src/plantuml/sequence.rs
index 9e3df57..76c0129 100644
--- a/src/plantuml/sequence.rs
+++ b/src/plantuml/sequence.rs
@@ -130,13 +130,13 @@ fn to_plant_uml_sd_rec(output_file : &mut File,
             // ***
             match kind {
                 &LoopKind::SStrictSeq => {
-                    output_file.write( "group loopX\n".as_bytes() );
+                    output_file.write( "group loopS\n".as_bytes() );
                 },
                 &LoopKind::HHeadFirstWS => {
                     output_file.write( "group loopH\n".as_bytes() );
                 },
                 &LoopKind::WWeakSeq => {
-                    output_file.write( "group loopS\n".as_bytes() );
+                    output_file.write( "group loopW\n".as_bytes() );
                 },
                 &LoopKind::PInterleaving => {
                     output_file.write( "group loopP\n".as_bytes() );
-- 
2.43.0


From 4b5c409073d5ec7e2c7360f11586046aa1b4d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 44/51] fix: state machines of lifelines (or loops) which do
 nothing can be left

---
 src/plantuml/automata_product.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plantuml/automata_product.rs b/src/plantuml/automata_product.rs
index 15d67d6..7a6b0e9 100644
--- a/src/plantuml/automata_product.rs
+++ b/src/plantuml/automata_product.rs
@@ -37,7 +37,7 @@ pub fn to_plant_uml_ap(output_path : &String,
         let projected_int = interaction.eliminate_lifelines(&lfs_to_remove);
         output_file.write( format!("state lf_{} {{\n",lf_name).as_bytes() );
         let (last_state_id,_) = to_plant_uml_ap_rec(&mut output_file, &projected_int, gen_ctx, lf_id, 0, 1);
-        output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last_state_id).as_bytes() );
+        output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last_state_id)).as_bytes() );
         output_file.write( "}\n".as_bytes() );
     }
     output_file.write( "@enduml\n".as_bytes() );
@@ -159,7 +159,7 @@ fn to_plant_uml_ap_rec(output_file : &mut File,
             // ***
             let (last,count) =  to_plant_uml_ap_rec(output_file, i1, gen_ctx, lf_id, 0, new_state_count);
             new_state_count = count;
-            output_file.write( format!("lf{}_s{} --> [*]\n",lf_id,last).as_bytes() );
+            output_file.write( format!("{} --> [*]\n",get_last_label(lf_id,last)).as_bytes() );
             // ***
             output_file.write( "}\n".as_bytes() );
             output_file.write(format!("{} --> {}\n", last_state_label, loop_label).as_bytes());
-- 
2.43.0


From 9635eb04cf95a5b15d3f760e53ee52a6152dcab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:03 +0000
Subject: [PATCH 45/51] fix: the random generation of interactions does not
 panic for lack of a declared argument

---
 src/ui/hibou_cli.yml | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ui/hibou_cli.yml b/src/ui/hibou_cli.yml
index c465237..7bb88f3 100644
--- a/src/ui/hibou_cli.yml
+++ b/src/ui/hibou_cli.yml
@@ -436,6 +436,11 @@ subcommands:
                   short: i
                   takes_value: true
                   help: number of interactions to generate (default 350)
+              - num_tries:
+                  required: false
+                  short: t
+                  takes_value: true
+                  help: number of unsuccessful tries after which the generation stops (default three times the number of interactions)
               - probas:
                   required: false
                   short: p
-- 
2.43.0


From 418aebd261b249e76f18f12c69203be32b801fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:03 +0000
Subject: [PATCH 46/51] fix: the same seed generates the same random
 interactions

---
 src/experiments/interaction_random_gen/probas.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/probas.rs b/src/experiments/interaction_random_gen/probas.rs
index 98d022d..ab866fa 100644
--- a/src/experiments/interaction_random_gen/probas.rs
+++ b/src/experiments/interaction_random_gen/probas.rs
@@ -66,7 +66,9 @@ impl InteractionSymbolsProbabilities {
         let mut ordered_symbols = vec![];
         let mut ordered_bounds = vec![0.0_f32];
         let mut sum = 0.0;
-        for (s,p) in map {
+        let mut entries : Vec<(InteractionGenerationSymbol,f32)> = map.into_iter().collect();
+        entries.sort_by_key(|(s,_)| *s);
+        for (s,p) in entries {
             if p < 0.0 - 1e-6 || p > 1.0 + 1e-6 {
                 return Err(InteractionSymbolsProbabilitiesError::SymbolProbabilityMustBeBetweenOAnd1);
             }
-- 
2.43.0


From d7cd953ea52bd7cf284216132689d0aadf4d41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 47/51] fix: the folder in which random interactions are
 generated is created

---
 src/ui/commands/cli_rng_gen_interactions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index be9a727..99c059e 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -169,6 +169,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 output_folder)
             );
 
+            if let Err(e) = std::fs::create_dir_all(&output_folder) {
+                return (vec![format!("'{:}' : {:}", output_folder, e)],1);
+            }
+
             let mut memoized_ints = HashSet::new();
 
             let mut rng = StdRng::seed_from_u64(seed);
-- 
2.43.0


From 1da8bd34db62c20d08c25169f926789d12bfbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 48/51] fix: unknown probabilities for the generation of
 interactions are refused with an error

---
 src/ui/commands/cli_rng_gen_interactions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index 99c059e..bb7dfe5 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -142,7 +142,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::default_non_regular()
                     },
                     _ => {
-                        panic!("unknown probas for interactions generations : '{:}'", extracted)
+                        return (vec![format!("unknown probas for interactions generations : '{:}'", extracted)],1);
                     }
                 }
             } else {
-- 
2.43.0


From 694abda10ed8bffb9ac041c93e18cd846c12f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 49/51] fix: the reported probabilities are those used to
 generate interactions

---
 src/ui/commands/cli_rng_gen_interactions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index bb7dfe5..c96675b 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -135,7 +135,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                         InteractionSymbolsProbabilities::conservative()
                     },
                     "protocols_with_coreg" => {
-                        probas_name = "conservative";
+                        probas_name = "protocols_with_coreg";
                         InteractionSymbolsProbabilities::protocols_with_coreg()
                     },
                     "default" => {
-- 
2.43.0


From 81cbf110b752d2cfcc21a7a0f3a7fb93adb6cb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:04 +0000
Subject: [PATCH 50/51] fix: numbers of interactions and of tries do not
 overflow

---
 src/ui/commands/cli_rng_gen_interactions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index c96675b..bf0882c 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -73,7 +73,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
 
             let num_tries : u32 = match matches.value_of("num_tries") {
                 None => {
-                    number_of_interactions*3
+                    number_of_interactions.saturating_mul(3)
                 },
                 Some( as_str ) => {
                     match as_str.trim().parse::<u32>() {
@@ -199,7 +199,7 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
                 }
                 if !got_one {
                     println!("retrying...");
-                    max_tries -= 1;
+                    max_tries = max_tries.saturating_sub(1);
                     if max_tries <= 0 {
                         println!("... max retries exceeded");
                         break 'myloop;
-- 
2.43.0


From 2536e9b40873b4823656cc8efa41ade2ba36534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:06 +0000
Subject: [PATCH 51/51] fix: interactions can be generated with a single
 lifeline, and are refused without lifelines or messages

---
 src/experiments/interaction_random_gen/gen.rs | 4 +++-
 src/ui/commands/cli_rng_gen_interactions.rs   | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/experiments/interaction_random_gen/gen.rs b/src/experiments/interaction_random_gen/gen.rs
index 30113be..f98353c 100644
--- a/src/experiments/interaction_random_gen/gen.rs
+++ b/src/experiments/interaction_random_gen/gen.rs
@@ -60,7 +60,9 @@ pub fn generate_random_pattern(signature : &GeneralContext,
     let mut lifelines : Vec<usize> = (0..signature.get_lf_num()).collect();
     lifelines.shuffle(rng);
     let orig_lf_id = lifelines.pop().unwrap();
-    let targets : Vec<EmissionTargetRef> = if is_broadcast {
+    let targets : Vec<EmissionTargetRef> = if lifelines.is_empty() {
+        vec![]
+    } else if is_broadcast {
         let number_of_targets = rng.gen_range(0..lifelines.len());
         lifelines[0..number_of_targets].iter()
             .map(|x| EmissionTargetRef::Lifeline(*x)).collect()
diff --git a/src/ui/commands/cli_rng_gen_interactions.rs b/src/ui/commands/cli_rng_gen_interactions.rs
index bf0882c..ac69f53 100644
--- a/src/ui/commands/cli_rng_gen_interactions.rs
+++ b/src/ui/commands/cli_rng_gen_interactions.rs
@@ -59,6 +59,10 @@ pub fn cli_rng_gen_interactions(matches : &ArgMatches) -> (Vec<String>,u32) {
         },
         Ok( gen_ctx ) => {
 
+            if gen_ctx.get_lf_num() == 0 || gen_ctx.get_ms_num() == 0 {
+                return (vec!["generating interactions requires at least one lifeline and one message".to_string()],1);
+            }
+
             let number_of_interactions : u32 = match matches.value_of("num_ints") {
                 None => {
                     350
-- 
2.43.0

