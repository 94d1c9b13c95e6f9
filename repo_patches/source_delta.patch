From 462670c5dac9e7515db2f8b99f7df8a417e286e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 1/8] fix: report the number of rows found in
 BlockParseError::NotEnoughRows

---
 src/board/sudoku.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 2656e94..81c83ba 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -520,7 +520,7 @@ impl Sudoku {
             n_line_sud += 1;
         }
         if n_line_sud != 9 {
-            return Err(BlockParseError::NotEnoughRows(n_line_sud + 1)); // number of rows = index of last + 1
+            return Err(BlockParseError::NotEnoughRows(n_line_sud));
         }
         Ok(Sudoku(grid))
     }
-- 
2.43.0


From 1f1e7ea2c8a70407713f336a18a576cbbe69c1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 2/8] fix: return unsuitable sources unchanged when generating
 puzzles

---
 src/board/sudoku.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 81c83ba..af9e60f 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -229,6 +229,12 @@ impl Sudoku {
         symmetry: Symmetry,
         rng: &mut R,
     ) -> Self {
+        // Removing a clue can turn a contradictory sudoku into a uniquely solvable one,
+        // so the checks after each removal don't suffice to leave an unsuitable source alone.
+        if !sudoku.is_uniquely_solvable() {
+            return sudoku;
+        }
+
         // this function is following
         // the approach outlined here: https://stackoverflow.com/a/7280517
         //
-- 
2.43.0


From 514176827598cc8aa5293118d42de4ff4bbf090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:09 +0000
Subject: [PATCH 3/8] fix: recognise a completely filled strategy solver as
 solved

---
 src/strategy/solver.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 27f8630..41eb45d 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -229,9 +229,16 @@ impl StrategySolver {
     }
 
     fn update_grid(&mut self) {
+        self.grid.state = self.current_grid();
+    }
+
+    // the grid including all entries
+    fn current_grid(&self) -> Sudoku {
+        let mut grid = self.grid.state;
         for &Candidate { cell, digit } in &self.deduced_entries {
-            self.grid.state.0[cell.as_index()] = digit.get();
+            grid.0[cell.as_index()] = digit.get();
         }
+        grid
     }
 
     /// Try to solve the sudoku using the given `strategies`. Returns a `Result` of the sudoku and a struct containing the series of deductions.
@@ -285,7 +292,8 @@ impl StrategySolver {
 
     /// Check whether the sudoku has been completely solved.
     pub fn is_solved(&self) -> bool {
-        self.n_solved == 81
+        // `n_solved` only counts the entries that were already inserted into the caches.
+        self.n_solved == 81 || self.deduced_entries.len() >= 81 && self.current_grid().is_solved()
     }
 
     fn update_cell_poss_house_solved(&mut self) -> Result<(), Unsolvable> {
-- 
2.43.0


From 09364e1079e892ddcd54ee7a5f78161672dc2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 4/8] fix: find all naked singles when it is the first strategy

---
 src/strategy/strategies.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/strategy/strategies.rs b/src/strategy/strategies.rs
index a55e59d..8b7bc15 100644
--- a/src/strategy/strategies.rs
+++ b/src/strategy/strategies.rs
@@ -78,7 +78,10 @@ impl Strategy {
         use self::Strategy::*;
         match *self {
             NakedSingles if !stop_after_first && is_first_strategy => {
-                state._update_cell_poss_house_solved(true, true)
+                state._update_cell_poss_house_solved(true, true)?;
+                // the update only looks at the cells it touches,
+                // but updates made for other strategies leave naked singles behind, too
+                state.find_naked_singles(stop_after_first)
             }
             NakedSingles => state.find_naked_singles(stop_after_first),
             HiddenSingles => state.find_hidden_singles(stop_after_first),
-- 
2.43.0


From 3da3788af8749550d5c4cd79819de46236942bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:07 +0000
Subject: [PATCH 5/8] fix: keep applying a single strategy until it finds
 nothing

---
 src/strategy/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 41eb45d..934cf6a 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -273,7 +273,7 @@ impl StrategySolver {
             if first.deduce_all(self, true).is_err() {
                 break;
             };
-            if self.deduced_entries.len() > n_deductions {
+            if self.deduced_entries.len() > n_deductions || self.eliminated_entries.len() > n_eliminated {
                 continue 'outer;
             }
 
-- 
2.43.0


From 46d7752f368fd2c7d5b1756fc5027c3e9cf20316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:41 +0000
Subject: [PATCH 6/8] fix: reject inserting a digit into a cell that already
 holds the same digit

---
 src/strategy/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 934cf6a..5e6cfd8 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -208,6 +208,9 @@ impl StrategySolver {
     #[allow(clippy::result_unit_err)] // yes, it should be changed
     pub fn insert_candidate(&mut self, candidate: Candidate) -> Result<(), ()> {
         self.update_grid();
+        if self.grid.state.0[candidate.cell.as_index()] != 0 {
+            return Err(());
+        }
         Self::push_new_candidate(
             &mut self.grid.state,
             &mut self.deduced_entries,
-- 
2.43.0


From 39668ca9eb60455b319c138befbdd02450a5fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 7/8] fix: querying a cell no longer changes the state of the
 strategy solver

---
 src/strategy/solver.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 5e6cfd8..181d3fb 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -192,16 +192,8 @@ impl StrategySolver {
 
     /// Returns the current state of the given `cell`
     pub fn cell_state(&mut self, cell: Cell) -> CellState {
-        self.update_grid();
-        let _ = self._update_cell_poss_house_solved(false, false);
-
-        let digit = self.grid.state.0[cell.as_index()];
-        if digit != 0 {
-            CellState::Digit(Digit::new(digit))
-        } else {
-            let digits = self.cell_poss_digits.state[cell];
-            CellState::Candidates(digits)
-        }
+        // compute on a copy as updating the caches can affect which deductions are found later
+        self.grid_state()[cell.as_index()]
     }
 
     /// Try to insert the given candidate. Fails, if the cell already contains a digit.
-- 
2.43.0


From 653b8fa3d49bafafebf648ee907044a3146f950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 8/8] fix: position constructors panic on out-of-range numbers
 in release builds too

The documentation of `new` promises a panic, but the check was a
`debug_assert!`: without debug assertions, safe code could construct
positions that do not exist.
---
 src/board/positions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/positions.rs b/src/board/positions.rs
index 81c4fd9..5a62193 100644
--- a/src/board/positions.rs
+++ b/src/board/positions.rs
@@ -179,7 +179,7 @@ macro_rules! define_types(
             /// # Panics
             /// Panics, if the argument is outside the allowed range.
             pub fn new(num: u8) -> Self {
-                debug_assert!(num < $limit);
+                assert!(num < $limit);
                 $name(num)
             }
 
-- 
2.43.0

