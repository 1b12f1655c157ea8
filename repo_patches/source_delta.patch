From 9aa0611cc79d80bd5cad3ce4a499363cbe907259 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 01/24] fix: keep alternatives and substring groups from
 leaking into what follows them

---
 noodle/src/expression.rs | 43 ++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..0b81347 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -83,6 +83,7 @@ impl Expression {
     /// Extend `states` with the NFA representation of the `ast`
     /// The first new state is the "start" state, and the last added
     /// state must have a "success" transition to the next state.
+    /// No other added state may have a transition out of the added states.
     fn build_states(ast: &parser::Ast, states: &mut Vec<State>) {
         let initial_len = states.len();
         match ast {
@@ -97,19 +98,20 @@ impl Expression {
                     states[initial_len]
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
-                    Self::build_states(alt, states);
+                    Self::build_nonempty_states(alt, states);
                     end_indexes.push(states.len() - 1);
                 }
-                let next_index = states.len();
+                let final_index = states.len();
                 for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
+                    // Repoint the terminal states to the (shared) final state
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
                     if epsilon_states.contains(end_index + 1) {
                         epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
+                        epsilon_states.insert(final_index);
                     }
-                    states[end_index].next_state = next_index;
+                    states[end_index].next_state = final_index;
                 }
+                Self::push_epsilon_state(states);
             }
             parser::Ast::Sequence(terms) => {
                 for term in terms {
@@ -124,27 +126,28 @@ impl Expression {
                     states[initial_len]
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
-                    Self::build_states(term, states);
+                    Self::build_nonempty_states(term, states);
                     end_indexes.push(states.len() - 1);
                 }
-                let next_index = states.len();
+                let final_index = states.len();
                 for end_index in end_indexes {
-                    // Add the true success state to the terminal states
+                    // Add the (shared) final state to the terminal states
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
                     if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
+                        epsilon_states.insert(final_index);
                     }
                     // Rather than have the `char_bitset` edge point to two states,
                     // we add a epsilon transition onto the `next_state`
                     if states[end_index].char_bitset != CharBitset::EMPTY {
                         let next_state = states[end_index].next_state;
-                        if next_state != next_index {
+                        if next_state != final_index {
                             states[next_state]
                                 .epsilon_states_bitset_mut()
-                                .insert(next_index);
+                                .insert(final_index);
                         }
                     }
                 }
+                Self::push_epsilon_state(states);
             }
             parser::Ast::Repetition {
                 term: _,
@@ -192,6 +195,24 @@ impl Expression {
         }
     }
 
+    /// Same as `build_states`, but always adds at least one state, even if `ast` only matches
+    /// the empty string.
+    fn build_nonempty_states(ast: &parser::Ast, states: &mut Vec<State>) {
+        let initial_len = states.len();
+        Self::build_states(ast, states);
+        if states.len() == initial_len {
+            Self::push_epsilon_state(states);
+        }
+    }
+
+    /// Add a state which only has an epsilon transition to the next state
+    fn push_epsilon_state(states: &mut Vec<State>) {
+        let next_index = states.len() + 1;
+        let mut state = State::new();
+        state.epsilon_states_bitset_mut().insert(next_index);
+        states.push(state);
+    }
+
     /// Perform an optimization pass on the NFA, modifying `states` so
     /// that it produces an equivalent NFA that can be evaluated more efficiently
     ///
-- 
2.43.0


From d6a3299da480871a3dbc27cd13a520bb5faacd3e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 02/24] fix: prune redundant states without renumbering the
 wrong ones

---
 noodle/src/expression.rs | 77 +++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 0b81347..1fe6cb1 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -358,13 +358,9 @@ impl Expression {
         // RUNTIME: O(states^3)
         fn prune_epsilon_pairs(states: &mut Vec<State>) {
             let states_len = states.len();
-            let mut state_map: Vec<_> = (0..states_len).collect();
-            let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
-            let mut deleted: Vec<usize> = vec![];
+            // If state `i` is redundant, `merged_into[i]` is the (later) state which replaces it.
+            let mut merged_into: Vec<Option<usize>> = vec![None; states_len];
             for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
                 // Don't attempt to collapse the first state
                 // Removing it would add a lot of complexity, with little benefit
                 if i == 0 {
@@ -378,50 +374,49 @@ impl Expression {
 
                 // Look for any states that are equivalent to `state`,
                 // (except for containing the transition from itself)
+                // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i < i2`
                 // RUNTIME: O(states^2)
                 let mut similar_states = state.epsilon_states.clone();
                 similar_states.borrow_mut().remove(i);
-                for (i2, state2) in states.iter().enumerate() {
-                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
-                    if i2 <= i {
-                        continue;
-                    }
-                    if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
-                        break;
-                    }
+                merged_into[i] =
+                    (i + 1..states_len).find(|&i2| similar_states == states[i2].epsilon_states);
+            }
+
+            // `state_map[i]` is the new index of state `i`, or of the state it was merged into
+            let mut new_states_len = 0;
+            let mut state_map: Vec<usize> = vec![0; states_len];
+            for i in 0..states_len {
+                if merged_into[i].is_none() {
+                    state_map[i] = new_states_len;
+                    new_states_len += 1;
+                }
+            }
+            // The replacement for a redundant state may be redundant itself, but it always comes
+            // later than the state it replaces
+            for i in (0..states_len).rev() {
+                if let Some(i2) = merged_into[i] {
+                    state_map[i] = state_map[i2];
                 }
             }
 
-            // Re-create the state table, pruning the `deleted` states
-            // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
-            // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // Re-create the state table, without the redundant states
+            // Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
             // RUNTIME: O(states^2)
-            let new_states_len = states_len - deleted.len();
             state_map.iter().for_each(|&s| assert!(s < new_states_len));
-            *states = state_map_from
+            *states = states
                 .iter()
-                .filter_map(|&from| {
-                    from.map(|from_index| {
-                        let state = &states[from_index];
-                        let mut epsilon_states = BitSet1D::new((), new_states_len);
-                        for s in state.epsilon_states.borrow().ones() {
-                            epsilon_states.borrow_mut().insert(state_map[s])
-                        }
-                        State {
-                            char_bitset: state.char_bitset,
-                            next_state: state_map[state.next_state],
-                            epsilon_states,
-                        }
-                    })
+                .enumerate()
+                .filter(|(i, _)| merged_into[*i].is_none())
+                .map(|(_, state)| {
+                    let mut epsilon_states = BitSet1D::new((), new_states_len);
+                    for s in state.epsilon_states.borrow().ones() {
+                        epsilon_states.borrow_mut().insert(state_map[s])
+                    }
+                    State {
+                        char_bitset: state.char_bitset,
+                        next_state: state_map[state.next_state],
+                        epsilon_states,
+                    }
                 })
                 .collect();
         }
-- 
2.43.0


From a83f9c9b90f70ba0b15726129132a5f2a9ccc683 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 03/24] fix: return a phrase match found by the very last
 search step

---
 noodle/src/query.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..104dfb3 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -502,6 +502,16 @@ impl<'word> QueryEvaluator<'word> {
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
+                    if search_queue.is_empty() {
+                        // If the depth queue is empty, we're done for good!
+                        // Signal that the iterator is exhausted
+                        self.phase = QueryPhase::Done;
+                        return QueryResponse::Complete(format!(
+                            "Complete, found all {} phrases up to {} words",
+                            self.results_count, self.search_depth_limit
+                        ));
+                    }
+
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -592,22 +602,11 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
-                                        // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
-                                    } else {
-                                        // Otherwise, restart at the first layer with the new depth
-                                        *phase_had_partial_match = false;
-                                        search_layers[*layer_index].word_index = 0;
-                                        search_layers[*layer_index].max_tranche =
-                                            wordlist[0].tranche;
-                                        break;
-                                    }
+                                    // Restart at the first layer with the new depth (if there is one)
+                                    *phase_had_partial_match = false;
+                                    search_layers[*layer_index].word_index = 0;
+                                    search_layers[*layer_index].max_tranche = wordlist[0].tranche;
+                                    break;
                                 }
 
                                 // Ascend back to the previous layer (perhaps recursively!)
-- 
2.43.0


From 30c07c550a0d3ed625723f220e19db82b9ba4063 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 04/24] fix: report progress for empty wordlists and one-word
 searches

---
 noodle/src/matcher.rs |  2 +-
 noodle/src/query.rs   | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 104dfb3..a40567d 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -55,7 +55,7 @@ enum QueryPhase<'word> {
 
         /// Initial (unitless) estimate for time to perform the phrase search phase,
         /// based on the size/value of the `search_queue`. (See `search_estimate`)
-        initial_search_estimate: u32,
+        initial_search_estimate: u64,
     },
     /// Phase 3, done!
     Done,
@@ -87,7 +87,7 @@ struct SearchLayer {
 
 // --
 
-fn search_estimate(search_phases: &[SearchPhase]) -> u32 {
+fn search_estimate(search_phases: &[SearchPhase]) -> u64 {
     // This is just an incredibly rough guess at how long each phase will take
     // In theory each phase should be `O(total_size)`, but eliminating common
     // prefixes makes it usually run much faster.
@@ -95,7 +95,7 @@ fn search_estimate(search_phases: &[SearchPhase]) -> u32 {
     // Assume each phase is roughly `O((log total_size) ^ 2)`
     search_phases
         .iter()
-        .map(|p| (p.total_size as f64).log2().powf(2.0) as u32)
+        .map(|p| (p.total_size as f64).log2().powf(2.0) as u64)
         .sum()
 }
 
@@ -193,12 +193,17 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
-                let step_index = &search_layers[0].word_index;
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    // The last phase just finished
+                    None => return "Phrase matches: done (100%)".to_string(),
+                };
+                // `.max(1)` because `log2(0)` is infinite
+                let step_index = search_layers[0].word_index.max(1);
 
                 let estimate = search_estimate(search_queue);
                 let step_estimate =
-                    ((*step_index as f64).log2() * (phase.depth as f64)).powf(2.0) as u32;
+                    ((step_index as f64).log2() * (phase.depth as f64)).powf(2.0) as u64;
                 let estimate = initial_search_estimate - estimate.saturating_sub(step_estimate);
 
                 format!(
@@ -206,7 +211,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate / (*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From 2cd029576821ada20aac34de82fdeb018efba142 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 05/24] fix: allow letters to be inserted anywhere in a fuzzy
 match

---
 noodle/src/expression.rs | 68 ++++++++++++++++++++++++++++------------
 noodle/src/matcher.rs    | 11 ++-----
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 1fe6cb1..56800ff 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -456,6 +456,36 @@ impl Expression {
         self.states[state_index].epsilon_states_bitset()
     }
 
+    /// Initialize the first entry of a state transition table, before consuming any characters
+    ///
+    /// With 0 fuzz, the only states reachable from each state are its epsilon transitions. Every
+    /// additional fuzz can skip over (insert) one more letter from the expression.
+    ///
+    /// `RUNTIME: O(fuzz * states^3)`
+    pub fn init_transition_table(&self, table: &mut BitSet3D) {
+        table.borrow_mut().clear();
+        for state_index in 0..self.states.len() {
+            table
+                .slice_mut((state_index, 0))
+                .union_with(self.epsilon_states(state_index));
+
+            let mut fuzz_superset = self.epsilon_states(state_index).to_bitset();
+            for fuzz_index in 0..self.fuzz {
+                let insertion_set = self.char_transitions(
+                    CharBitset::LETTERS,
+                    table.slice((state_index, fuzz_index)),
+                );
+                let mut fuzzed_states = table.slice_mut((state_index, fuzz_index + 1));
+                fuzzed_states.union_with(insertion_set.borrow());
+                // Discard the states we can get to with less fuzz
+                fuzzed_states.difference_with(fuzz_superset.borrow());
+                fuzz_superset
+                    .borrow_mut()
+                    .union_with(fuzzed_states.reborrow());
+            }
+        }
+    }
+
     /// Populate a state transition table for a given word
     ///
     /// The transition table has dimensions: `[char][from_state][fuzz][to_state]`,
@@ -466,9 +496,7 @@ impl Expression {
     /// to optimize future searches.
     ///
     /// This function does not initialize the transition table. When starting a word,
-    /// the transition_table[char=0] should be initialized to only contain the starting state:
-    /// The only bits that should be set are `[c][0][0][e]` where `e` is an epsilon transition
-    /// from the starting state. (see `Expression::epsilon_states(0)`)
+    /// the transition_table[char=0] should be initialized with `init_transition_table`
     ///
     /// If `single_word_only` is true, only entries startin from state 0 are populated,
     /// (i.e. `[c][0][f][t]`). This is an optimization when we know that the user doesn't care
@@ -536,30 +564,30 @@ impl Expression {
                 // For a fuzzy match, expand `next_state_table[fi+1]` by adding all states
                 // reachable from `state_table[f]` *but* with a 1-character change to `chars`
                 // RUNTIME: O(fuzz * states^2)
-                let mut fuzz_superset = BitSet1D::new((), self.states.len());
+                let mut fuzz_superset = upper_table[0].slice((state_index, 0)).to_bitset();
                 for fuzz_index in 0..self.fuzz {
                     let state_transitions =
                         lower_table[char_index].slice((state_index, fuzz_index));
-                    let mut fuzzed_next_state_transitions =
-                        upper_table[0].slice_mut((state_index, fuzz_index + 1));
 
-                    if state_transitions.is_empty() {
-                        continue;
-                    }
+                    // Insertion: skip over a letter in the expression, after consuming the character
+                    let insertion_set = self.char_transitions(
+                        CharBitset::LETTERS,
+                        upper_table[0].slice((state_index, fuzz_index)),
+                    );
 
-                    // Deletion
-                    fuzzed_next_state_transitions.union_with(state_transitions);
+                    let mut fuzzed_next_state_transitions =
+                        upper_table[0].slice_mut((state_index, fuzz_index + 1));
+                    fuzzed_next_state_transitions.union_with(insertion_set.borrow());
 
-                    // Change
-                    let change_set_group =
-                        self.char_transitions(CharBitset::LETTERS, state_transitions);
-                    let change_set = change_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(change_set);
+                    if !state_transitions.is_empty() {
+                        // Deletion
+                        fuzzed_next_state_transitions.union_with(state_transitions);
 
-                    // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
+                        // Change
+                        let change_set =
+                            self.char_transitions(CharBitset::LETTERS, state_transitions);
+                        fuzzed_next_state_transitions.union_with(change_set.borrow());
+                    }
 
                     // Optimization: discard the states we can get to with less fuzz
                     fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index ec430dc..3f18eb9 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -227,14 +227,9 @@ impl<'word> WordMatcher<'word> {
 
             // If there is no common prefix, clear the table & populate with initial state
             if prefix_len == 0 {
-                prefixed_table[0].borrow_mut().clear();
-                for src in 0..states_len {
-                    // After consuming 0 chars (and 0 fuzz), the only states reachable from state
-                    // `src` are its epsilon transitions
-                    prefixed_table[0]
-                        .slice_mut((src, 0))
-                        .union_with(self.phrase_matcher.expression.epsilon_states(src));
-                }
+                self.phrase_matcher
+                    .expression
+                    .init_transition_table(&mut prefixed_table[0]);
             }
 
             // Fill the table, but this can return early if the chars are not a match
-- 
2.43.0


From 51671a12cefef588125f577fc8af85b5973fc9c6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 06/24] fix: reject numbers and expressions which are too large
 to evaluate

---
 noodle/src/expression.rs | 12 +++---
 noodle/src/parser.rs     | 91 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 92 insertions(+), 11 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 56800ff..a763f68 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -5,7 +5,7 @@ use std::fmt;
 
 // This is only used while constructing the `Expression`,
 // the sets are resized before they are evaluated.
-const MAX_SET_SIZE: usize = 16 * 1024;
+pub(crate) const MAX_SET_SIZE: usize = 16 * 1024;
 
 #[derive(Debug, Clone)]
 struct State {
@@ -58,6 +58,10 @@ impl Expression {
         let ignore_word_boundaries = !ast_root.options.explicit_word_boundaries.unwrap_or(false);
         let ignore_punctuation = !ast_root.options.explicit_punctuation.unwrap_or(false);
 
+        assert!(
+            ast_root.root.max_states() < MAX_SET_SIZE,
+            "expression is too large"
+        );
         let mut states = vec![];
         Self::build_states(&ast_root.root, &mut states);
         // Add a "success" end state (this may not be needed?) that absorbs word boundaries
@@ -471,10 +475,8 @@ impl Expression {
 
             let mut fuzz_superset = self.epsilon_states(state_index).to_bitset();
             for fuzz_index in 0..self.fuzz {
-                let insertion_set = self.char_transitions(
-                    CharBitset::LETTERS,
-                    table.slice((state_index, fuzz_index)),
-                );
+                let insertion_set = self
+                    .char_transitions(CharBitset::LETTERS, table.slice((state_index, fuzz_index)));
                 let mut fuzzed_states = table.slice_mut((state_index, fuzz_index + 1));
                 fuzzed_states.union_with(insertion_set.borrow());
                 // Discard the states we can get to with less fuzz
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..dc0f8c2 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,6 +1,7 @@
+use crate::expression::MAX_SET_SIZE;
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
 use pest::Parser;
 use std::fmt;
@@ -81,7 +82,8 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
-        Ok(parse_expression(pair))
+        validate_numbers(&pair)?;
+        parse_expression(pair)
     }
 }
 
@@ -146,9 +148,10 @@ impl QueryAst {
                 .into_inner();
 
             if let Some(pair) = pair.next() {
+                validate_numbers(&pair).map_err(|e| error_set_line(e, i + 1))?;
                 match pair.as_rule() {
                     Rule::expression => {
-                        let expr = parse_expression(pair);
+                        let expr = parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
@@ -471,6 +474,79 @@ impl fmt::Display for Ast {
     }
 }
 
+impl Ast {
+    /// Upper bound on how many NFA states are needed to represent this node (after any anagrams
+    /// have been expanded), saturating at `usize::MAX`
+    pub(crate) fn max_states(&self) -> usize {
+        let sum = |nodes: &[Self], min: usize| {
+            nodes.iter().fold(0usize, |sum, node| {
+                sum.saturating_add(node.max_states().max(min))
+            })
+        };
+        match self {
+            Ast::CharClass(_) => 1,
+            Ast::Alternatives(nodes) | Ast::Substring(nodes) => sum(nodes, 1).saturating_add(2),
+            Ast::Sequence(nodes) => sum(nodes, 0),
+            Ast::Repetition { term, min, max } => {
+                let repeats = max.unwrap_or(*min).max(*min).max(1);
+                term.max_states()
+                    .max(1)
+                    .saturating_mul(repeats)
+                    .saturating_add(2)
+            }
+            Ast::Anagram { kind, bank } => {
+                let added = match kind {
+                    AnagramKind::TransAdd(n) => *n,
+                    _ => 0,
+                };
+                bank.len()
+                    .saturating_mul(6)
+                    .saturating_add(added)
+                    .saturating_add(8)
+            }
+        }
+    }
+}
+
+fn custom_error(pair: &Pair<Rule>, message: &str) -> PestError<Rule> {
+    PestError::new_from_span(
+        ErrorVariant::CustomError {
+            message: message.to_owned(),
+        },
+        pair.as_span(),
+    )
+}
+
+/// Check that every number inside of `pair` can be represented, and that every range is in order
+fn validate_numbers(pair: &Pair<Rule>) -> Result<()> {
+    for p in std::iter::once(pair.clone()).chain(pair.clone().into_inner().flatten()) {
+        match p.as_rule() {
+            Rule::number => {
+                if p.as_str().parse::<usize>().is_err() {
+                    return Err(custom_error(&p, "number is too large"));
+                }
+            }
+            Rule::repeat_range => {
+                let inner = p.clone().into_inner().skip(1);
+                let numbers: Vec<usize> = inner.filter_map(|n| n.as_str().parse().ok()).collect();
+                if numbers.len() == 2 && numbers[0] > numbers[1] {
+                    return Err(custom_error(&p, "minimum is greater than maximum"));
+                }
+            }
+            Rule::option_fuzz | Rule::pragma_words => {
+                if parse_numbers(p.clone().into_inner())
+                    .iter()
+                    .any(|&n| n >= MAX_SET_SIZE)
+                {
+                    return Err(custom_error(&p, "number is too large"));
+                }
+            }
+            _ => (),
+        }
+    }
+    Ok(())
+}
+
 /// Given a (flat) list of parsed `pairs`, parse every `Rule::number` into a `usize` and return
 /// them in a `Vec<usize>`.
 fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
@@ -699,20 +775,23 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
 }
 
 /// Build an AST for the given `Rule::expression`
-fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
+fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
-    let mut pairs = pair.into_inner();
+    let mut pairs = pair.clone().into_inner();
     let subexpression = pairs.next().unwrap();
     assert!(
         subexpression.as_rule() == Rule::sequence || subexpression.as_rule() == Rule::alternatives
     );
 
     let ast = parse_term(subexpression).unwrap();
+    if ast.max_states() >= MAX_SET_SIZE {
+        return Err(custom_error(&pair, "expression is too large"));
+    }
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-    ExpressionAst { root: ast, options }
+    Ok(ExpressionAst { root: ast, options })
 }
 
 // TODO: Investigate proptest?
-- 
2.43.0


From fa5b6cc22c55cf2caa3edff4a83187bb629641c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 07/24] fix: expand anagrams inside of repetitions

---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dc0f8c2..ed4ae99 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -222,10 +222,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From 1525eaae14c15da3dbf8714d8e002f07badab1a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 08/24] fix: print nested repetitions and empty character
 classes so that they can be parsed again

---
 noodle/src/parser.rs | 70 ++++++++++++++++++--------------------------
 noodle/src/words.rs  |  2 +-
 2 files changed, 30 insertions(+), 42 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index ed4ae99..a0fce36 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -414,49 +414,22 @@ impl fmt::Display for Ast {
                 }
             }
             Ast::Substring(nodes) => {
-                if nodes.len() > 1 {
-                    write!(f, "(")?;
-                }
-                nodes.iter().try_for_each(|n| write!(f, "{}", n))?;
-                if nodes.len() > 1 {
-                    write!(f, ":^)")?;
+                write!(f, "(")?;
+                nodes.iter().try_for_each(|n| n.fmt_term(f))?;
+                write!(f, ":^)")?;
+            }
+            Ast::Repetition { term, min, max } => {
+                term.fmt_term(f)?;
+                match (min, max) {
+                    (0, None) => write!(f, "*")?,
+                    (0, Some(1)) => write!(f, "?")?,
+                    (1, None) => write!(f, "+")?,
+                    (0, Some(max)) => write!(f, "{{,{}}}", max)?,
+                    (min, None) => write!(f, "{{{},}}", min)?,
+                    (min, Some(max)) if min == max => write!(f, "{{{}}}", min)?,
+                    (min, Some(max)) => write!(f, "{{{},{}}}", min, max)?,
                 }
             }
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: None,
-            } => write!(f, "{}*", term)?,
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: Some(1),
-            } => write!(f, "{}?", term)?,
-            Ast::Repetition {
-                term,
-                min: 1,
-                max: None,
-            } => write!(f, "{}+", term)?,
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: Some(max),
-            } => write!(f, "{}{{,{}}}", term, max)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: None,
-            } => write!(f, "{}{{{},}}", term, min)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: Some(max),
-            } if min == max => write!(f, "{}{{{}}}", term, min)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: Some(max),
-            } => write!(f, "{}{{{},{}}}", term, min, max)?,
             Ast::Anagram { kind, bank } => {
                 write!(f, "<")?;
                 bank.iter().try_for_each(|c| write!(f, "{:?}", c))?;
@@ -475,6 +448,21 @@ impl fmt::Display for Ast {
 }
 
 impl Ast {
+    /// Format this node where the grammar requires a `term`, which excludes repetitions
+    fn fmt_term(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let mut node = self;
+        while let Ast::Sequence(nodes) = node {
+            match &nodes[..] {
+                [n] => node = n,
+                _ => break,
+            }
+        }
+        match node {
+            Ast::Repetition { .. } => write!(f, "({})", node),
+            _ => write!(f, "{}", node),
+        }
+    }
+
     /// Upper bound on how many NFA states are needed to represent this node (after any anagrams
     /// have been expanded), saturating at `usize::MAX`
     pub(crate) fn max_states(&self) -> usize {
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..66ce506 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -133,7 +133,7 @@ impl fmt::Debug for CharBitset {
         }
         let ones = self.0.count_ones();
         if ones == 0 {
-            return write!(f, "0");
+            return write!(f, "[^a-z]");
         }
         if ones > 1 {
             write!(f, "[")?;
-- 
2.43.0


From 60c1c5c7118d4ffa64172a805cdf96f308d385b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 09/24] fix: parse /*...*/ comments and empty comments

---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..f8fcfdb 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
-    (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    (("//" | "--") ~ ANY*) |
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From eeecb7f5b4b4474b994c64e31e77aca600b1f02e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 10/24] fix: always stop counting a query as active once it is
 over

---
 noodle-webapp/src/main.rs | 42 ++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..68d10eb 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -60,6 +60,26 @@ lazy_static! {
     static ref ACTIVE_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
     static ref TOTAL_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
 }
+
+/// Counts towards `ACTIVE_QUERIES` for as long as it is alive
+struct ActiveQuery {
+    n_active: usize,
+}
+
+impl ActiveQuery {
+    fn new() -> Self {
+        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
+        let n_active = ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+        Self { n_active }
+    }
+}
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 static TIMEOUT: Duration = Duration::from_secs(150);
 static TIMEOUT_PLAINTEXT: Duration = Duration::from_secs(10);
 
@@ -154,8 +174,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     //
     // TODO: I don't like that this has a lot of the same code as run_websocket,
     // but it's a pain to abstract out streams due to their long types
-    TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-    ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+    let _active_query = ActiveQuery::new();
 
     let timeout = if plaintext {
         TIMEOUT_PLAINTEXT
@@ -164,7 +183,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     };
     let query_ast = parser::QueryAst::new_from_str(query_str);
 
-    let result = match query_ast {
+    match query_ast {
         Ok(mut query_ast) => {
             let mut body = String::new();
             if plaintext && query_ast.options.results_limit.is_none() {
@@ -200,9 +219,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
             Ok(body)
         }
         Err(error) => Ok(error.to_string()),
-    };
-    ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
-    result
+    }
 }
 
 /// Websockets interface, for interactive use
@@ -225,16 +242,18 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             .map(|m| m.map_err(Into::into))
             .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
 
-        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-        let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let active_query = ActiveQuery::new();
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
-            n_active
+            active_query.n_active
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_ast = parser::QueryAst::new_from_str(
+            msg.to_str()
+                .map_err(|()| anyhow!("Query is not a text message"))?,
+        );
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
@@ -306,7 +325,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
@@ -364,7 +382,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From 4f48058b131a2a850450815f39eea8c502bbecc6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:15 +0000
Subject: [PATCH 11/24] fix: complete a query which has no expressions instead
 of panicking

---
 noodle/src/query.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index a40567d..d53e981 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -106,8 +106,6 @@ impl<'word> QueryEvaluator<'word> {
         search_depth_limit: PhraseDepth,
         results_limit: Option<usize>,
     ) -> Self {
-        assert!(!expressions.is_empty());
-
         // TODO: Remove +1
         let max_word_len = 1 + input_wordlist
             .iter()
@@ -186,7 +184,10 @@ impl<'word> QueryEvaluator<'word> {
 
     pub fn progress(&self) -> String {
         match &self.phase {
-            QueryPhase::Word { matchers, wordlist } => matchers[0].progress(wordlist),
+            QueryPhase::Word { matchers, wordlist } => match matchers.first() {
+                Some(matcher) => matcher.progress(wordlist),
+                None => "No expressions".to_string(),
+            },
             QueryPhase::Phrase {
                 search_layers,
                 search_queue,
@@ -232,6 +233,10 @@ impl<'word> QueryEvaluator<'word> {
         }
 
         match &mut self.phase {
+            QueryPhase::Word { matchers, .. } if matchers.is_empty() => {
+                self.phase = QueryPhase::Done;
+                QueryResponse::Complete("Complete, there were no expressions to match".to_string())
+            }
             QueryPhase::Word { matchers, wordlist } => {
                 let single_word_only = self.search_depth_limit <= 1;
 
-- 
2.43.0


From c91c1a645ad258f9074e4e35b688778942846a51 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 12/24] fix: only merge a skippable state when everything that
 leads to it can skip it

---
 noodle/src/expression.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index a763f68..10000c5 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -268,6 +268,7 @@ impl Expression {
         //      - Itself
         //      - The char state
         //      - The epsilon_states of the char state's next state
+        //  - Every other state which leads to the char state leads to all of those states too
         // This could be more generic if states supported an arbitrary set of edges
         // TODO: this code is pretty inefficient
         // RUNTIME: O(states^3)?
@@ -307,6 +308,16 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // Anything which leads to char_state must be able to skip it, like eps_state
+                    && states.iter().enumerate().all(|(i, state)| {
+                        let mut epsilons = state.epsilon_states.clone();
+                        epsilons.borrow_mut().insert(eps_index);
+                        i == char_index
+                            || (!state.epsilon_states.borrow().contains(char_index)
+                                || eps_state.epsilon_states.borrow().is_subset(&epsilons.borrow()))
+                                && (state.char_bitset == CharBitset::EMPTY
+                                    || state.next_state != char_index)
+                    })
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From dda68397a5c00e3c642ffbec45aabb8477492151 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 13/24] fix: parse nested groups without exponential
 backtracking

---
 noodle/src/noodle_grammar.pest |  56 ++++++------
 noodle/src/parser.rs           | 160 ++++++++++++++++++++-------------
 2 files changed, 126 insertions(+), 90 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f8fcfdb..f90818a 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -18,27 +18,38 @@ invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { ASCII_ALPHA+ }
 
-sequence = { (repeat | term)+ }
-alternatives = { sequence ~ ("|" ~ sequence)+ }
+// These rules are arranged so that no alternatives start with the same term,
+// because backtracking over nested groups would take exponential time
+sequence = { repeat+ }
+alternatives = { sequence ~ ("|" ~ sequence)* }
 anagram = { "<" ~ anagram_body ~ ">" }
 superanagram = { "<" ~ anagram_body ~ "+>" }
 subanagram = { "<" ~ anagram_body ~ "->" }
 transadd = { "<" ~ anagram_body ~ "+" ~ number ~ ">" }
 transdelete = { "<" ~ anagram_body ~ "-" ~ number ~ ">" }
-substring = { "(" ~ term+ ~ ":^)" }
-subset = { "(" ~ term+ ~ ":-)" }
-superset = { "(" ~ term+ ~ ":+)" }
 
-repeat_optional = { term ~ "?" }
-repeat_any = { term ~ "*" }
-repeat_oneormore = { term ~ "+" }
-repeat_atmost = { term ~ "{," ~ number ~ "}" }
-repeat_exact = { term ~ "{" ~ number ~ "}" }
-repeat_atleast = { term ~ "{" ~ number ~ ",}" }
-repeat_range = { term ~ "{" ~ number ~ "," ~ number ~ "}" }
+repeat_optional = { "?" }
+repeat_any = { "*" }
+repeat_oneormore = { "+" }
+repeat_atmost = { "{," ~ number ~ "}" }
+repeat_exact = { "{" ~ number ~ "}" }
+repeat_atleast = { "{" ~ number ~ ",}" }
+repeat_range = { "{" ~ number ~ "," ~ number ~ "}" }
+repeat_count = _{
+    repeat_optional |
+    repeat_any |
+    repeat_oneormore |
+    repeat_atmost |
+    repeat_exact |
+    repeat_atleast |
+    repeat_range
+}
+repeat = { term ~ repeat_count? }
 
-subexpression = _{ (alternatives | sequence) }
-group = _{ "(" ~ subexpression ~ ")" }
+substring = { ":^)" }
+subset = { ":-)" }
+superset = { ":+)" }
+group = { "(" ~ alternatives ~ (substring | subset | superset | ")") }
 term = _{
       class
     | dot
@@ -48,30 +59,15 @@ term = _{
     | subanagram
     | transadd
     | transdelete
-    | substring
-    | subset
-    | superset
     | number
     | character
 }
-repeat = _{
-    repeat_optional |
-    repeat_any |
-    repeat_oneormore |
-    repeat_atmost |
-    repeat_exact |
-    repeat_atleast |
-    repeat_range
-}
-
-
-
 option_word_boundaries = { "!_" }
 option_punctuation = { "!'" }
 option_fuzz = {"!" ~ number }
 option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
-expression = { SOI ~ subexpression ~ (option)* ~ EOI }
+expression = { SOI ~ alternatives ~ (option)* ~ EOI }
 
 macro_name = { ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 macro_value = { (' '..'~')* } // Nearly any ASCII character
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index a0fce36..055b2d8 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -82,7 +82,7 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
-        validate_numbers(&pair)?;
+        validate_pair(&pair)?;
         parse_expression(pair)
     }
 }
@@ -148,7 +148,7 @@ impl QueryAst {
                 .into_inner();
 
             if let Some(pair) = pair.next() {
-                validate_numbers(&pair).map_err(|e| error_set_line(e, i + 1))?;
+                validate_pair(&pair).map_err(|e| error_set_line(e, i + 1))?;
                 match pair.as_rule() {
                     Rule::expression => {
                         let expr = parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
@@ -505,8 +505,9 @@ fn custom_error(pair: &Pair<Rule>, message: &str) -> PestError<Rule> {
     )
 }
 
-/// Check that every number inside of `pair` can be represented, and that every range is in order
-fn validate_numbers(pair: &Pair<Rule>) -> Result<()> {
+/// Check that every number inside of `pair` can be represented, that every range is in order, and
+/// that groups like `(...:^)` are made up of plain terms
+fn validate_pair(pair: &Pair<Rule>) -> Result<()> {
     for p in std::iter::once(pair.clone()).chain(pair.clone().into_inner().flatten()) {
         match p.as_rule() {
             Rule::number => {
@@ -515,8 +516,7 @@ fn validate_numbers(pair: &Pair<Rule>) -> Result<()> {
                 }
             }
             Rule::repeat_range => {
-                let inner = p.clone().into_inner().skip(1);
-                let numbers: Vec<usize> = inner.filter_map(|n| n.as_str().parse().ok()).collect();
+                let numbers = parse_numbers(p.clone().into_inner());
                 if numbers.len() == 2 && numbers[0] > numbers[1] {
                     return Err(custom_error(&p, "minimum is greater than maximum"));
                 }
@@ -529,12 +529,41 @@ fn validate_numbers(pair: &Pair<Rule>) -> Result<()> {
                     return Err(custom_error(&p, "number is too large"));
                 }
             }
+            Rule::group => {
+                let mut inner = p.clone().into_inner();
+                let alternatives = inner.next().unwrap();
+                if inner.next().is_some() && plain_terms(alternatives).is_none() {
+                    return Err(custom_error(&p, "expected a list of terms"));
+                }
+            }
             _ => (),
         }
     }
     Ok(())
 }
 
+/// Given a `Rule::alternatives` pair, return the terms inside if it is just a list of terms,
+/// with no alternatives or repetitions
+fn plain_terms(alternatives: Pair<Rule>) -> Option<Vec<Pair<Rule>>> {
+    assert_eq!(alternatives.as_rule(), Rule::alternatives);
+    let mut sequences = alternatives.into_inner();
+    let sequence = sequences.next().unwrap();
+    if sequences.next().is_some() {
+        return None;
+    }
+    sequence
+        .into_inner()
+        .map(|repeat| {
+            let mut inner = repeat.into_inner();
+            let term = inner.next().unwrap();
+            match inner.next() {
+                Some(_) => None,
+                None => Some(term),
+            }
+        })
+        .collect()
+}
+
 /// Given a (flat) list of parsed `pairs`, parse every `Rule::number` into a `usize` and return
 /// them in a `Vec<usize>`.
 fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
@@ -561,7 +590,7 @@ fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     (bank, number)
 }
 
-/// Given an outer pair (a `Rule::term`, `Rule::subexpression`, or similar), parse the contents
+/// Given an outer pair (a `Rule::term`, `Rule::alternatives`, or similar), parse the contents
 /// into an `Ast` if it contains anything. If it is empty (e.g. whitespace), return `None`.
 fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
     let rule = pair.as_rule();
@@ -594,43 +623,49 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             }
             Some(Ast::CharClass(bitset))
         }
-        Rule::subset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .map(|c| Ast::Repetition {
-                    term: Box::new(c),
-                    min: 0,
-                    max: Some(1),
-                })
-                .collect(),
-        )),
-        Rule::superset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .flat_map(|c| {
-                    vec![
-                        Ast::Repetition {
+        Rule::group => {
+            let mut inner = pair.into_inner();
+            let alternatives = inner.next().unwrap();
+            let kind = match inner.next() {
+                Some(kind) => kind.as_rule(),
+                None => return parse_term(alternatives),
+            };
+            let terms = plain_terms(alternatives).unwrap().into_iter();
+            let terms = terms.filter_map(parse_term);
+            match kind {
+                Rule::subset => Some(Ast::Sequence(
+                    terms
+                        .map(|c| Ast::Repetition {
+                            term: Box::new(c),
+                            min: 0,
+                            max: Some(1),
+                        })
+                        .collect(),
+                )),
+                Rule::superset => Some(Ast::Sequence(
+                    terms
+                        .flat_map(|c| {
+                            vec![
+                                Ast::Repetition {
+                                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                                    min: 0,
+                                    max: None,
+                                },
+                                c,
+                            ]
+                            .into_iter()
+                        })
+                        .chain(std::iter::once(Ast::Repetition {
                             term: Box::new(Ast::CharClass(CharBitset::ALL)),
                             min: 0,
                             max: None,
-                        },
-                        c,
-                    ]
-                    .into_iter()
-                })
-                .chain(std::iter::once(Ast::Repetition {
-                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                    min: 0,
-                    max: None,
-                }))
-                .collect(),
-        )),
-        Rule::substring => Some(Ast::Substring(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::group => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+                        }))
+                        .collect(),
+                )),
+                Rule::substring => Some(Ast::Substring(terms.collect())),
+                _ => unreachable!(),
+            }
+        }
         Rule::sequence => Some(Ast::Sequence(
             pair.into_inner().filter_map(parse_term).collect(),
         )),
@@ -646,16 +681,15 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Ast::CharClass(Char::WORD_END.into()),
             ]))
         }
-        Rule::repeat_optional
-        | Rule::repeat_any
-        | Rule::repeat_oneormore
-        | Rule::repeat_exact
-        | Rule::repeat_atmost
-        | Rule::repeat_atleast
-        | Rule::repeat_range => {
+        Rule::repeat => {
             let mut pairs = pair.into_inner();
-            let term = Box::new(pairs.next().and_then(parse_term).unwrap());
-            let numbers = parse_numbers(pairs);
+            let term = pairs.next().and_then(parse_term).unwrap();
+            let count = match pairs.next() {
+                Some(count) => count,
+                None => return Some(term),
+            };
+            let rule = count.as_rule();
+            let numbers = parse_numbers(count.into_inner());
             let (min, max) = match rule {
                 Rule::repeat_optional => (0, Some(1)),
                 Rule::repeat_any => (0, None),
@@ -666,7 +700,11 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Rule::repeat_range => (numbers[0], Some(numbers[1])),
                 _ => unreachable!(),
             };
-            Some(Ast::Repetition { term, min, max })
+            Some(Ast::Repetition {
+                term: Box::new(term),
+                min,
+                max,
+            })
         }
         Rule::anagram | Rule::subanagram | Rule::superanagram => {
             let (bank, number) = parse_anagram(pair.into_inner());
@@ -699,15 +737,19 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 bank,
             })
         }
-        Rule::alternatives => Some(Ast::Alternatives(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+        Rule::alternatives => {
+            let mut sequences: Vec<_> = pair.into_inner().filter_map(parse_term).collect();
+            match sequences.len() {
+                1 => sequences.pop(),
+                _ => Some(Ast::Alternatives(sequences)),
+            }
+        }
 
         _ => None,
     }
 }
 
-/// Given a list of pairs from the "end" of a `Rule::expression` (after the `Rule::subexpression` term),
+/// Given a list of pairs from the "end" of a `Rule::expression` (after the `Rule::alternatives` term),
 /// extract the option flags into an `ExpressionOptions` struct.
 fn parse_options(pairs: Pairs<'_, Rule>) -> ExpressionOptions {
     let mut explicit_word_boundaries = None;
@@ -767,12 +809,10 @@ fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
     let mut pairs = pair.clone().into_inner();
-    let subexpression = pairs.next().unwrap();
-    assert!(
-        subexpression.as_rule() == Rule::sequence || subexpression.as_rule() == Rule::alternatives
-    );
+    let alternatives = pairs.next().unwrap();
+    assert_eq!(alternatives.as_rule(), Rule::alternatives);
 
-    let ast = parse_term(subexpression).unwrap();
+    let ast = parse_term(alternatives).unwrap();
     if ast.max_states() >= MAX_SET_SIZE {
         return Err(custom_error(&pair, "expression is too large"));
     }
-- 
2.43.0


From 7ee8a2373cdf8de4adffd41b44662e39eb1cb442 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 14/24] fix: reject queries which are nested too deep or whose
 macros expand without bound

---
 noodle/src/parser.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 055b2d8..60c61d4 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -3,7 +3,7 @@ use crate::words::*;
 use indexmap::IndexMap;
 use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Position};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -76,8 +76,40 @@ pub enum AnagramKind {
     TransDelete(usize),
 }
 
+/// Deeper nesting than this is rejected, because parsing & evaluating it is recursive
+const MAX_NESTING: usize = 200;
+
+/// Lines which are longer than this after expanding macros are rejected
+const MAX_EXPANDED_LEN: usize = 64 * 1024;
+
+/// Check that the groups in a line are not nested too deep to be parsed
+fn check_nesting(line: &str) -> Result<()> {
+    let mut depth: usize = 0;
+    for (i, c) in line.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            return Err(line_error(line, i, "groups are nested too deep"));
+        }
+    }
+    Ok(())
+}
+
+fn line_error(line: &str, index: usize, message: &str) -> PestError<Rule> {
+    PestError::new_from_pos(
+        ErrorVariant::CustomError {
+            message: message.to_owned(),
+        },
+        Position::new(line, index).unwrap(),
+    )
+}
+
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_nesting(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
@@ -138,8 +170,14 @@ impl QueryAst {
 
             let mut line = line.to_owned();
             for (macro_name, macro_value) in macros.iter() {
+                let added_len = line.matches(macro_name).count() * macro_value.len();
+                if added_len > MAX_EXPANDED_LEN || line.len() + added_len > MAX_EXPANDED_LEN {
+                    let err = line_error(&line, 0, "line is too long after expanding macros");
+                    return Err(error_set_line(err, i + 1));
+                }
                 line = line.replace(macro_name, macro_value);
             }
+            check_nesting(&line).map_err(|e| error_set_line(e, i + 1))?;
 
             let mut pair = NoodleParser::parse(Rule::query, &line)
                 .map_err(|e| error_set_line(e, i + 1))?
-- 
2.43.0


From 327d20cb6148f1700a9d6e5ef6cefd4ee0305bcd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:33 +0000
Subject: [PATCH 15/24] fix: keep digits and dashes in the wordlist name of
 #dict, accept #dictionary

---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f90818a..29f6259 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -74,7 +74,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dict_name = @{ (ASCII_ALPHANUMERIC | "." | "'" | "_" | "-")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dict_name }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 3c00ee74b65b764eaf495f21c533a95ee048c76d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 16/24] fix: define macros with spaces around the equals sign
 under their own name

The name of `V = x` was taken to be `V ` with the space, so that later
uses of `V` were not replaced and silently matched the letter instead.
---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 29f6259..6fe496d 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -69,7 +69,7 @@ option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
 expression = { SOI ~ alternatives ~ (option)* ~ EOI }
 
-macro_name = { ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
+macro_name = @{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
-- 
2.43.0


From ec5831ca992538910337483364c0ebbd0ba15fe4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 17/24] fix: read ranges of letters without regard to case

---
 noodle/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 60c61d4..c6b1561 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -648,7 +648,7 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
-                    let cs = p.as_str().chars().collect::<Vec<_>>();
+                    let cs = p.as_str().to_ascii_lowercase().chars().collect::<Vec<_>>();
                     bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
                 }
                 Rule::character => {
-- 
2.43.0


From 01b2cf9fcf7289e3dde3e348530862e3e6eb5044 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:43 +0000
Subject: [PATCH 18/24] fix: read ranges with spaces around the dash

---
 noodle/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index c6b1561..339a495 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -648,8 +648,9 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
+                    // There may be whitespace or comments around the dash
                     let cs = p.as_str().to_ascii_lowercase().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    bitset.union_with(CharBitset::from_range(cs[0], cs[cs.len() - 1]));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From ac4c7866dedcd61ac915ebd0ff4315c71a1b03e6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 19/24] fix: ignore spaces between the letters of an anagram

---
 noodle/src/noodle_grammar.pest | 3 ++-
 noodle/src/parser.rs           | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 6fe496d..f156a3e 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -16,7 +16,8 @@ dot = { "." }
 letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
-anagram_body = { ASCII_ALPHA+ }
+letter = { ASCII_ALPHA }
+anagram_body = { letter+ }
 
 // These rules are arranged so that no alternatives start with the same term,
 // because backtracking over nested groups would take exponential time
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 339a495..345a751 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -622,7 +622,10 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
 fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     let body = pairs.next().unwrap();
     assert_eq!(body.as_rule(), Rule::anagram_body);
-    let bank = body.as_str().chars().map(|c| c.into()).collect();
+    let bank = body
+        .into_inner()
+        .map(|letter| letter.as_str().chars().next().unwrap().into())
+        .collect();
     let number = parse_numbers(pairs).get(0).cloned();
 
     (bank, number)
-- 
2.43.0


From 295a8c01e28b5b125d11b6da266c2a57c87c5b49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:18 +0000
Subject: [PATCH 20/24] fix: compact_distance_set used the wrong slice and
 stride

---
 noodle/src/bitset.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/noodle/src/bitset.rs b/noodle/src/bitset.rs
index 5dc7dc5..7deafa2 100644
--- a/noodle/src/bitset.rs
+++ b/noodle/src/bitset.rs
@@ -224,14 +224,14 @@ impl BitSet<(usize, usize)> {
 
     /// Special function for Matcher::next_phrase that is hard to implement there due to aliasing.
     /// `self` represents a 3D bitset: [x][y][z].
-    /// Removes all [index][y+1][z] where [index][y][z] exists
+    /// Removes all [index][y+1..][z] where [index][y][z] exists
     pub fn compact_distance_set(&mut self, index: usize) {
-        let blocks = &mut self.blocks[self.size.0 * index..self.size.0 * (index + 1)];
-        let stride = blocks.len() / self.size.1;
-        debug_assert_eq!(stride * self.size.1, blocks.len());
+        let plane_size = self.size.total_size();
+        let blocks = &mut self.blocks[plane_size * index..plane_size * (index + 1)];
+        let stride = self.size.1;
         for i in 0..stride {
             let mut mask: Block = 0;
-            for j in 0..self.size.1 {
+            for j in 0..self.size.0 {
                 let b = &mut blocks[j * stride + i];
                 *b &= !mask;
                 mask |= *b;
-- 
2.43.0


From 4fb93d6db945b2481bbe7252dba7616addb2a4fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 21/24] fix: read capital sharp s as ss, like the small one

---
 noodle/src/words.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 66ce506..10286d7 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -178,7 +178,8 @@ impl Word {
                     };
                     cs
                 })
-                // Case folding
+                // Case folding (lowercase first, since 'ẞ' has no other uppercase but 'ß' has)
+                .flat_map(|c| c.to_lowercase())
                 .flat_map(|c| c.to_uppercase())
                 .flat_map(|c| c.to_lowercase())
                 // Convert UTF-8 characters into Char enums
-- 
2.43.0


From ccd85f2fe4660712a65e76243e5dcb4ce6f4dcbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 22/24] fix: write wordlists of fewer than two words

---
 listgen/listgen.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/listgen/listgen.py b/listgen/listgen.py
index 3b49341..8785f6e 100644
--- a/listgen/listgen.py
+++ b/listgen/listgen.py
@@ -37,11 +37,14 @@ class Wordlist:
 
     def dump_final(self, path: Path) -> None:
         total_scores = sum(x[0] for x in self.word_data.values())
-        max_score = max(x[0] for x in self.word_data.values())
-        min_score = min(x[0] for x in self.word_data.values())
-        min_frequency = min_score / total_scores
-        scale = 1e6 / math.log(min_frequency)
-        assert scale < 0
+        if len(self.word_data) > 1:
+            min_score = min(x[0] for x in self.word_data.values())
+            min_frequency = min_score / total_scores
+            scale = 1e6 / math.log(min_frequency)
+            assert scale < 0
+        else:
+            # Fewer than two words do not span a range of frequencies
+            scale = 0.0
         with path.open("w") as f:
             for canonical, (score, _, word) in sorted(
                 self.word_data.items(), key=lambda x: x[1][0], reverse=True
-- 
2.43.0


From 5d613de9178e47ebae20f0ecb325d09c59d677a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:54 +0000
Subject: [PATCH 23/24] fix: replace en dashes before looking at the characters
 of a word

---
 listgen/listgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listgen/listgen.py b/listgen/listgen.py
index 8785f6e..6cd4a33 100644
--- a/listgen/listgen.py
+++ b/listgen/listgen.py
@@ -118,13 +118,13 @@ def strip_word(word: str) -> str:
     #     - (Usually domains are filterd out by the ":" check, this is a backstop of sorts)
     if not any_letter_re.match(word):
         return ""
+    word = word.replace("–", "-")
     match = strip_word_re.match(word)
     if not match:
         return ""
     word = match.group(1)
     if "_" in word:
         return ""
-    word = word.replace("–", "-")
     if "www." in word or domain_re.match(word):
         return ""
     return word
-- 
2.43.0


From 5b7c58c854d5511e5ffac9c856abecf67323c826 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:22 +0000
Subject: [PATCH 24/24] fix: escape everything in the links beside a result

encodeURI leaves characters such as & and # alone, so that the links of
a result like "AT&T" looked up another text.
---
 noodle-webapp/static/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index c8dfb78..b0cf739 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -518,14 +518,14 @@
                         let google = document.createElement("a");
                         google.innerText = "g";
                         google.className = "ext";
-                        google.href = "https://google.com/search?q=define:" + encodeURI(match.fullText);
+                        google.href = "https://google.com/search?q=define:" + encodeURIComponent(match.fullText);
                         google.title = "Google define:" + match.fullText;
                         google.target = "_blank";
 
                         let wiki = document.createElement("a");
                         wiki.innerText = "w";
                         wiki.className = "ext";
-                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURI(match.fullText);
+                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURIComponent(match.fullText);
                         wiki.title = "Wikipedia " + match.fullText;
                         wiki.target = "_blank";
 
@@ -533,7 +533,7 @@
                         cxio.innerText = "x";
                         cxio.className = "ext";
                         cxio.title = "crossword-solver.io clue " + match.fullText;
-                        cxio.href = "https://crossword-solver.io/clue/" + encodeURI(match.fullText);
+                        cxio.href = "https://crossword-solver.io/clue/" + encodeURIComponent(match.fullText);
                         cxio.target = "_blank";
 
                         match.block.appendChild(copy);
-- 
2.43.0

