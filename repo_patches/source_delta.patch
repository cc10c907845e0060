From 1cb31c6542a011e413d44b7ec4fb480f050ea620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 01/13] fix: share ties exactly instead of truncating each
 batch's share

---
 src/equity_calculator/simulator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..0d541b2 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -542,7 +542,8 @@ pub struct UnitResults {
 }
 
 impl Default for UnitResults {
-    fn default() -> Self {
+    fn default() -> Self {
+
         UnitResults { 
             wins: 0, 
             ties: 0, 
@@ -555,7 +556,8 @@ impl Default for UnitResults {
             rank: u8::MAX, 
             draw: 0,
             valid: false
-        }
+        }
+
     }
 }
 
@@ -1135,9 +1137,9 @@ impl Simulator {
                         }
                     } else {
                         results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch.wins_by_mask[i] as f64 / winner_count as f64;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += batch.wins_by_mask[i] as f64 / winner_count as f64;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From dbd151d4064b42e6e5122510635101c9738794ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 02/13] fix: never report Monte Carlo progress above 100%

---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 0d541b2..0cb0f82 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1159,7 +1159,7 @@ impl Simulator {
                 .sqrt()
                 / results.batch_count;
 
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From 30259f5708286d717903a123d8f6d9852d4b7a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 03/13] fix: count the ninth player in winner masks

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 0cb0f82..732074c 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1255,9 +1255,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From ef1fd981950bf9d9129004165fdcd2b77338a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/13] fix: leave the equity of hands that were not dealt at 0
 instead of NaN

---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 732074c..7679db5 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -583,7 +583,9 @@ impl AddAssign for UnitResults {
         self.ties += other.ties;
         self.total += other.total;
         self.corrected_ties += other.corrected_ties;
-        self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        if self.total > 0 {
+            self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        }
     }
 }
 
-- 
2.43.0


From 9b0f85b8fc878950e3444ffc3403223551d6fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 05/13] fix: do not wrap the number of hole card combinations

---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 7679db5..22ad76e 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -972,7 +972,7 @@ impl Simulator {
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-            combo_count *= c.size() as u64;
+            combo_count = combo_count.saturating_mul(c.size() as u64);
         }
         combo_count
     }
-- 
2.43.0


From 877ff0843f273d8d69f69e608eb58470b98bdec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 06/13] fix: let exact calculations be cancelled while they
 only meet conflicting deals

---
 src/equity_calculator/simulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 22ad76e..3adf42b 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -704,6 +704,10 @@ impl Simulator {
         // let randomize_order = postflop_combos > 10000 && preflop_combos <= 2 * MAX_LOOKUP_SIZE;
         loop {
             if enum_pos >= enum_end {
+                // positions that only hold conflicting deals never reach the check below
+                if enum_end > 0 && self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    break;
+                }
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
                 let (p, e) = self.reserve_batch(batch_size);
                 enum_pos = p;
-- 
2.43.0


From bfeae5a548aadd42a8aac52e398e60032d5b5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 07/13] fix: do not set the caller's cancel token when the
 Monte Carlo simulation converges

---
 src/equity_calculator/simulator.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 3adf42b..aebb845 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -649,8 +649,10 @@ struct Simulator {
     fixed_board: Hand,
     /// number of players
     n_players: usize,
-    /// has monte carlo sim stopped
+    /// has the caller cancelled the calculation
     stopped: Arc<AtomicBool>,
+    /// has monte carlo sim converged
+    converged: AtomicBool,
     /// final results
     results: RwLock<SimulationResults>,
     /// target stdev from each batch for monte carlo
@@ -682,6 +684,7 @@ impl Simulator {
             n_players,
             calc_exact,
             stopped: cancel_token,
+            converged: AtomicBool::new(false),
             enum_pos: Mutex::new(0u64),
             results: RwLock::new(SimulationResults::init(n_players)),
             stdev_target,
@@ -1041,7 +1044,9 @@ impl Simulator {
                     self.update_results(&tx, batch, hand_stats, false);
                     hand_stats = vec![UnitResults::default(); NUM_HANDS*self.n_players];
                     batch = SimulationResultsBatch::init(self.n_players);
-                    if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    if self.stopped.load(std::sync::atomic::Ordering::SeqCst)
+                        || self.converged.load(std::sync::atomic::Ordering::SeqCst)
+                    {
                         break;
                     }
                     if !self.randomize_hole_cards(
@@ -1170,7 +1175,7 @@ impl Simulator {
 
             // calc variance
             if !finished && results.stdev < self.stdev_target {
-                self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
+                self.converged.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
             let progress = (*self.enum_pos.lock().unwrap() as f64 / self.get_preflop_combo_count() as f64 * 100.0) as u8;
-- 
2.43.0


From d3d4d8819fab95ced49a4959b205e54e47a88d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 08/13] fix: only stop Monte Carlo simulations on a deviation
 estimated from enough real batches

---
 src/equity_calculator/simulator.rs | 32 ++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index aebb845..8990b7b 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,8 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
+/// Batches needed before their variance can be trusted
+const MIN_BATCHES: f64 = 32.0;
 
 #[derive(Debug, Clone)]
 pub enum SimulatorError {
@@ -1162,19 +1164,29 @@ impl Simulator {
 
         results.eval_count += batch.eval_count;
         if !self.calc_exact {
-            results.batch_sum += batch_equity;
-            results.batch_sum2 += batch_equity * batch_equity;
-            results.batch_count += 1.0;
-            results.stdev = (1e-9 + results.batch_sum2
-                - results.batch_sum * results.batch_sum / results.batch_count)
-                .sqrt()
-                / results.batch_count;
-
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
+            // the batch a thread finishes with can be empty
+            if batch.eval_count > 0 {
+                results.batch_sum += batch_equity;
+                results.batch_sum2 += batch_equity * batch_equity;
+                results.batch_count += 1.0;
+                results.stdev = (1e-9 + results.batch_sum2
+                    - results.batch_sum * results.batch_sum / results.batch_count)
+                    .sqrt()
+                    / results.batch_count;
+            }
+
+            let progress = if results.batch_count > 0.0 {
+                (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8
+            } else {
+                0
+            };
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished
+                && results.batch_count >= MIN_BATCHES
+                && results.stdev < self.stdev_target
+            {
                 self.converged.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From bdcd42ce82ef78ff2168e26f93435d6c683dfcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 09/13] fix: reduce weights so that tallies of many players do
 not overflow

---
 src/equity_calculator/simulator.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 8990b7b..69bbf40 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -93,7 +93,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -201,7 +201,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&reduce_weights(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -1326,6 +1326,28 @@ impl Simulator {
     }
 }
 
+/// Divides the weights of each range by their greatest common divisor.
+/// Only the ratios matter, and the product of all players' weights has to
+/// leave room in the 64 bit tallies.
+fn reduce_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    let mut hand_ranges = hand_ranges.to_vec();
+    for hand_range in &mut hand_ranges {
+        let divisor = hand_range.hands.iter().fold(0u8, |divisor, hand| {
+            let (mut a, mut b) = (divisor, hand.2);
+            while b != 0 {
+                (a, b) = (b, a % b);
+            }
+            a
+        });
+        if divisor > 1 {
+            for hand in &mut hand_range.hands {
+                hand.2 /= divisor;
+            }
+        }
+    }
+    hand_ranges
+}
+
 fn randomize_board<R: Rng>(
     rng: &mut R,
     board: &mut Hand,
-- 
2.43.0


From f67ed13e849eeaaf0b8002d6528e7b39f6090ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 10/13] fix: refuse ranges that cannot be dealt together when
 they are too large to be joined

---
 src/equity_calculator/simulator.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 69bbf40..91cf4c6 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -134,8 +134,12 @@ pub fn exact_equity<F: Fn(u8)>(
     });
     // get results and calculate equity
     sim.fix_hand_weights(flag);
+    let no_more_deals = sim.no_more_deals();
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 && no_more_deals {
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -245,8 +249,12 @@ pub fn approx_equity<F: Fn(u8)>(
     });
     // get results and calculate equity
     sim.fix_hand_weights(flag);
+    let no_more_deals = sim.no_more_deals();
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 && no_more_deals {
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -978,6 +986,12 @@ impl Simulator {
         (start, end)
     }
 
+    /// Did the threads stop because there was nothing left to deal
+    fn no_more_deals(&self) -> bool {
+        // sampling threads that find a deal evaluate it before they look at anything else
+        !self.calc_exact || *self.enum_pos.lock().unwrap() >= self.get_preflop_combo_count()
+    }
+
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-- 
2.43.0


From b0705b575af75dcf4877c1fc9fd273c1c1ac2050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 11/13] fix: do not give up sampling ranges that rarely can be
 dealt together

---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 91cf4c6..dd41e23 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,8 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
+/// Rejected deals before sampling gives up
+const MAX_DEAL_ATTEMPTS: usize = 1_000_000;
 /// Batches needed before their variance can be trusted
 const MIN_BATCHES: f64 = 32.0;
 
@@ -1117,7 +1119,7 @@ impl Simulator {
         combo_dists: &[Uniform<usize>],
     ) -> bool {
         let mut ok;
-        for _ in 0..1000 {
+        for _ in 0..MAX_DEAL_ATTEMPTS {
             ok = true;
             *used_cards_mask = self.board_mask | self.dead_mask;
             for i in 0..self.combined_ranges.len() {
-- 
2.43.0


From d484980781fb4eb5525f95bb1380e0105acfe2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:00 +0000
Subject: [PATCH 12/13] fix: do not take a call that was cancelled before its
 first deal for a conflict

---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index dd41e23..85776a5 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -990,8 +990,8 @@ impl Simulator {
 
     /// Did the threads stop because there was nothing left to deal
     fn no_more_deals(&self) -> bool {
-        // sampling threads that find a deal evaluate it before they look at anything else
-        !self.calc_exact || *self.enum_pos.lock().unwrap() >= self.get_preflop_combo_count()
+        !self.stopped.load(std::sync::atomic::Ordering::SeqCst)
+            && (!self.calc_exact || *self.enum_pos.lock().unwrap() >= self.get_preflop_combo_count())
     }
 
     fn get_preflop_combo_count(&self) -> u64 {
-- 
2.43.0


From 8a8af5efe133b8c26bcf552ce44fa9a7f2bd6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:04 +0000
Subject: [PATCH 13/13] fix: refuse ranges whose hands all weigh zero instead
 of returning NaN equities

---
 src/equity_calculator/simulator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 85776a5..0ba24e7 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1348,6 +1348,8 @@ impl Simulator {
 fn reduce_weights(hand_ranges: &[HandRange]) -> Vec<HandRange> {
     let mut hand_ranges = hand_ranges.to_vec();
     for hand_range in &mut hand_ranges {
+        // hands of weight zero are never dealt
+        hand_range.hands.retain(|hand| hand.2 > 0);
         let divisor = hand_range.hands.iter().fold(0u8, |divisor, hand| {
             let (mut a, mut b) = (divisor, hand.2);
             while b != 0 {
-- 
2.43.0

