From 9972968a7436ef61665c449a5ca8e0515ea19f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 01/11] fix: let maze solutions step into the first column and
 first row

print_maze_solution rejected every step to the left from column 1 and every
step up from row 1 (it required x >= 2 / y >= 2), although the pixels it draws
(10x - 5 .. 10x + 5) are inside the picture from x = 1 on.
---
 src/puzzles/maze/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..833da64 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -207,7 +207,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x < 1 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -218,7 +218,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y < 1 {
                     return Err(MazeError::InvalidSolution);
                 }
 
-- 
2.43.0


From 6ea26ebdd5b2f6012593a801b8fdec34b3378e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 02/11] fix: accept maze solutions that end in the bottom row

A picture of a maze of height h is 10h + 1 pixels tall, and the last stroke of
the solution goes down to pixel 10y + 10. Requiring 10y + 16 rows made
print_maze_solution reject the solution of every maze it is meant for.
---
 src/puzzles/maze/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 833da64..f5e6eea 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -231,7 +231,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From 6fbeb47cfe07adc4e8aae80b35e127de779029ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 03/11] fix: report downward steps in mazes that are one cell
 wide

With width == 1 the cell above is also the cell with the preceding index, so
every step of the solution was reported as Right. Test for the vertical
neighbours first.
---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index f5e6eea..50eeff5 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From f80d42841c865748dc36d79892d928d8e04c25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 04/11] fix: do not treat sudoku givens above 9 as digits of
 other cells

solve_sudoku mapped a given of 10 in cell 0 to the digit 1 in cell 1, and
ignored one in the last cell altogether, so it returned grids that do not
contain the given. No completion contains such a given: report NoSolution.
---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From d9abf2946cb9fd2b97e2eea56b54159dcb945ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 05/11] fix: forget every row that conflicts with an added row

add_solution frees the nodes of all columns of the added row, but cleared the
row table for the rows of one of these columns only. Adding a row that
conflicts through another column followed a dangling pointer: solve_sudoku
with the same digit twice in a row (in different boxes) was a use after free.
---
 src/structures/dancing_links/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..40e0a9a 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,11 +66,11 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
-        }
-
         for node in unsafe { Node::iter_right(row) } {
+            for conflict in unsafe { Node::iter_down(Node::header(node)).skip(1) } {
+                self.rows[unsafe { Node::row(conflict) }] = null_mut();
+            }
+
             unsafe { Node::cover_column(node) };
         }
 
-- 
2.43.0


From 32755fabf553f97c811711a1854433be18c421b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 06/11] fix: reject nonogram rules whose total length overflows

The sum of the block lengths was computed with wrapping/panicking addition:
a rule such as 18446744073709551615,1 panicked in debug builds and was
accepted for any bound in release builds.
---
 src/puzzles/nonogram/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..4cda2d3 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size = 0usize;
 
             let values = rule
                 .split(',')
@@ -44,13 +44,13 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = size.saturating_add(value);
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = size.saturating_add(values.len() - 1);
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From 97a30aefd08b92e7085903fc13379461d8b03e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 07/11] fix: solve nonograms with empty lines

A rule of 0 (an empty line), which parse_nonogram_rules accepts, produced two
consecutive end states and made solve_nonogram reach unreachable!(). Blocks of
length zero fill no squares, so leave them out of the state machine.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..fe5735f 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value > 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value > 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 9f8c39fd3c206b72f747a3cf48ecd715664377cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 08/11] fix: report empty nonograms instead of panicking

With no rows and at least two columns solve_nonogram sliced past the end of
the empty grid. Return the (so far unused) EmptyPuzzle error.
---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 4cda2d3..9246de3 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 021614987ede662d5847edcb24a6fdd57705ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 09/11] fix: solve nonograms that line deduction alone cannot
 finish

recursive_backtrack was empty, so solve_nonogram returned grids that violate
the rules for every puzzle that needs a guess (for example rules 1;1 and 1;1
gave an all-blank grid). Guess a blank square, deduce, and recurse.
---
 src/puzzles/nonogram/mod.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 9246de3..928cb15 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -79,7 +79,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -120,7 +123,25 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let blank = match grid.iter().position(|square| *square == Square::Blank) {
+        Some(index) => index,
+        None => return true,
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[blank] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok() && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 1999fab6aed127bc01dbc1021142ff771e15f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 10/11] fix: check nonogram solution dimensions without
 overflow

print_nonogram_solution computed the expected picture size in 32 bits, so
mismatched dimensions panicked in debug builds and could match the picture
after wrapping in release builds.
---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 928cb15..eb97778 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -231,12 +231,12 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let rule_width = max(150, u64::from(width) * 10);
+    let rule_height = max(150, u64::from(height) * 10);
 
     if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+        || u64::from(image.width()) != u64::from(width) * 50 + rule_width
+        || u64::from(image.height()) != u64::from(height) * 50 + rule_height
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 3ca968917f5b06af1e689dd60d8cd0e1273e2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 11/11] fix: do not record refused rows in the solution

---
 src/structures/dancing_links/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 40e0a9a..59cca42 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let node = self.rows[row];
 
-        if row.is_null() {
+        if node.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(row);
+        let row = node;
+
         for node in unsafe { Node::iter_right(row) } {
             for conflict in unsafe { Node::iter_down(Node::header(node)).skip(1) } {
                 self.rows[unsafe { Node::row(conflict) }] = null_mut();
-- 
2.43.0

