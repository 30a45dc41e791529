From f503aa6e508117e9d2e258a8a3bfbe20716c5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 01/46] fix: report certain mines of merged groups in
 solve_enumerate

---
 base/src/algorithms.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..f1e6d28 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -606,8 +606,7 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From ba1348a5913bb50bf18f42006ab1b0c1a8b46ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 02/46] fix: is_good_chording no longer reads past the last
 column

---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..2dbd2d7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1733,7 +1733,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From bc93497f32478728076db9ca1aacd974c2a861bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:42 +0000
Subject: [PATCH 03/46] fix: refresh_matrixses visits every block of a segment
 exactly once

---
 base/src/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 2dbd2d7..c54dc4f 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -374,14 +374,16 @@ pub fn refresh_matrixses(
             block.retain(|x| !xs[seed_id as usize].contains(x))
         }
     } // 整理完邻接矩阵。无向图。
+    let mut visited = vec![false; As.len()];
     for i in 0..As.len() {
-        if As[i].is_empty() {
+        if visited[i] {
             continue;
         }
         Ases.push(vec![]);
         xses.push(vec![]);
         bses.push(vec![]);
         let mut buffer = vec![i];
+        visited[i] = true;
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
@@ -403,8 +405,9 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
-                if adjacency_matrix[t][idj] {
+            for idj in 0..As.len() {
+                if adjacency_matrix[t][idj] && !visited[idj] {
+                    visited[idj] = true;
                     buffer.push(idj);
                 }
             }
-- 
2.43.0


From 19849def5a9485f0e0b7fd8fe493bacc33a91ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 04/46] fix: iterating a SafeBoardRow yields the cell values

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..43d3a23 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -172,7 +172,7 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
-- 
2.43.0


From 9a93098542600ecc7439010ef76e41e5824b79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 05/46] fix: Board stores the metrics it caches

---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..1029cfa 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -209,22 +209,25 @@ impl Board {
             self.openings = cal_op(&self.board);
             self.has_cal_openings = true;
         }
+        self.bbbv = a + self.openings;
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
+        self.openings = cal_op(&self.board);
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
+        self.islands = cal_isl(&self.board);
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From 91cbe919365a39350b78f5d7a47745b6574f518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 06/46] fix: GameBoard drops stale results on set_game_board
 and keeps the enumerated mines

---
 base/src/board.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 1029cfa..0d2dad6 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,10 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
@@ -90,15 +94,8 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        // 枚举引擎不会在局面上标雷，判出的雷由其返回值给出
+        (self.enum_not_mine, self.enum_is_mine) = solve_enumerate(&a_s, &x_s, &b_s);
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From a4119820ac4bf1c62a0288425ff6f35ddad4c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 07/46] fix: count the opened start area correctly on boards
 narrower than three cells

---
 base/src/algorithms.rs | 13 +------------
 base/src/utils.rs      | 13 +------------
 2 files changed, 2 insertions(+), 24 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index f1e6d28..33f9980 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -802,18 +802,7 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    let area_op = (min(row, x0 + 2) + 1 - max(1, x0)) * (min(column, y0 + 2) + 1 - max(1, y0));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
diff --git a/base/src/utils.rs b/base/src/utils.rs
index c54dc4f..d113f6f 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -512,18 +512,7 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    let areaOp = (min(row, X0 + 2) + 1 - max(1, X0)) * (min(column, Y0 + 2) + 1 - max(1, Y0));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From 3a8f02dda54bc8b558e8dd6416a8b7d17d2a9f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 08/46] fix: MinesweeperBoard::reset also clears the pre-flag
 count and the middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..ba2a097 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From 491508ea016d324fcb9508b4042e18227ee44ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 09/46] fix: forgetting pre-flags also forgets their effective
 clicks

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index ba2a097..93f5e4c 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -542,6 +542,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.game_board_state = GameBoardState::Ready;
                                     self.flag = 0;
                                     self.flagedList.clear();
+                                    self.ce = 0;
                                     self.double = 0;
                                     self.left = 0;
                                     self.right = 0;
@@ -846,6 +847,7 @@ impl<T> MinesweeperBoard<T> {
     fn clear_click_num(&mut self) {
         self.flag = 0;
         self.flagedList.clear();
+        self.ce = 0;
         self.double = 0;
         self.left = 0;
         self.right = 0;
-- 
2.43.0


From 55fe16cf6e3ee07f1db6a5bcd597b4cf1333ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 10/46] fix: a right press outside the board is not refunded on
 the following chord

---
 base/src/videos/minesweeper_board.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 93f5e4c..55a1205 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -671,7 +671,8 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        // 局面外按下的右键没有计数，双击时也就不必退还
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
-- 
2.43.0


From f9ea1ebe622d8ee51ff583d9805e57e45ee4e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 11/46] fix: middle and right events outside the board no
 longer index past it

---
 base/src/videos/minesweeper_board.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 55a1205..dd419ce 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -728,6 +728,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
@@ -745,10 +749,16 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 if !self.middle_hold {
                     return self.chording_click(pos.0, pos.1);
                 }
-- 
2.43.0


From a21b6e11a122c1984a2fef741a140d25f7cd3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 12/46] fix: an opening counts as solved 3BV exactly when it
 becomes completely open

---
 base/src/videos/minesweeper_board.rs | 32 +++++++++++++---------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index dd419ce..d5e4dfe 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -178,11 +178,11 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
+                self.ce += 1;
+                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
                     self.bbbv_solved += 1;
                 }
-                self.ce += 1;
-                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -295,8 +295,8 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
-            refresh_board(&self.board, &mut self.game_board, chording_cells);
+            refresh_board(&self.board, &mut self.game_board, chording_cells.clone());
+            self.bbbv_solved += self.op_num_of_cells(&chording_cells);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -329,29 +329,26 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
+    // 双击以后，新打开的（完整）op数。传入此次双击打开的格子
     // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    fn op_num_of_cells(&self, cells: &Vec<(usize, usize)>) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
+        for &(i, j) in cells {
+            if self.board[i][j] == 0 && !game_board_mark[i][j] {
+                if self.cell_is_op_completed(i, j, &mut game_board_mark) {
+                    op_num += 1;
                 }
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
+    // 这个格子所在的op是否已经完全打开
     // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
@@ -359,14 +356,15 @@ impl<T> MinesweeperBoard<T> {
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut completed = true;
         let mut poses = vec![(x, y)];
         while let Some(top) = poses.pop() {
             let (i, j) = top;
             if self.board[i][j] > 0 {
                 continue;
             } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
+                if self.game_board[i][j] != 0 {
+                    completed = false;
                 }
                 game_board_mark[i][j] = true;
                 for m in max(1, i) - 1..min(self.row, i + 2) {
@@ -379,7 +377,7 @@ impl<T> MinesweeperBoard<T> {
             } else {
             }
         }
-        true
+        completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From 0b98428facdcf5dfc2845291d4605ca921e1ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 13/46] fix: is_guess_while_needless does not take a border
 mine for the clicked inner cell

---
 base/src/algorithms.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 33f9980..64c95b3 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1338,9 +1338,10 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
             return 3;
         }
         flag_need = n.is_empty();
+        // 点在内部时，xy是所在块边界上的格子，边界上的雷与点击处无关
         match board_of_game[xy.0][xy.1] {
             12 => return 1,
-            11 => return 4,
+            11 if flag_border => return 4,
             _ => {
                 let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                 if !flag_border && !n.is_empty() {
@@ -1349,7 +1350,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                 flag_need = flag_need && n.is_empty();
                 match board_of_game[xy.0][xy.1] {
                     12 => return 1,
-                    11 => return 4,
+                    11 if flag_border => return 4,
                     _ => {
                         let (n, i) = solve_enumerate(As, xs, bs);
                         if !flag_border && !n.is_empty() {
@@ -1358,7 +1359,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                         flag_need = flag_need && n.is_empty();
                         if n.contains(&xy) {
                             return 1;
-                        } else if i.contains(&xy) {
+                        } else if flag_border && i.contains(&xy) {
                             return 4;
                         } else if flag_need {
                             return 2;
-- 
2.43.0


From 9de21f40b178c553f5916b0c729c1930027e7a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 14/46] fix: cal_possibility reports the most mines
 independently of the given number

---
 base/src/algorithms.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 64c95b3..1a924a9 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -308,6 +308,7 @@ pub fn cal_possibility(
         }
     };
 
+    let max_minenum_border = max_minenum; // 边缘格子最多的雷数，与总雷数无关
     max_minenum = min(max_minenum, minenum);
     if max_minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
@@ -411,7 +412,7 @@ pub fn cal_possibility(
         [
             min_minenum + is_minenum,
             minenum + is_minenum,
-            max_minenum + is_minenum + unknow_block,
+            max_minenum_border + is_minenum + unknow_block,
         ],
         exceed_len,
     ))
-- 
2.43.0


From 75cd5a7e48ffefbae6635955bdbf1e9ef12107f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 15/46] fix: cal_possibility rejects more mines than the
 position can hold instead of returning NaN

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 1a924a9..119dc0b 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -378,6 +378,9 @@ pub fn cal_possibility(
         T.add_big_number(&t);
     }
     // 第五步，计算局面总情况数
+    if T.a == 0.0 {
+        return Err(3); // 雷数太多，未打开的格子放不下
+    }
 
     for i in 0..block_num {
         for cells_id in 0..comb_relp_s[i].len() {
-- 
2.43.0


From 288d896a22afa6bcc406d5048244a540bd21e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:50 +0000
Subject: [PATCH 16/46] fix: cal_possibility no longer underflows when more
 mines are marked than the density gives

---
 base/src/algorithms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 119dc0b..4597d8c 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -296,7 +296,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
-- 
2.43.0


From af892ce718c5f8baf025c23b7fbada7d21321e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 17/46] fix: SafeBoard decodes the value 9 as 9

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 43d3a23..92ea637 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -20,7 +20,7 @@ fn encode(v: i32, rng: &mut rand::rngs::ThreadRng) -> (i32, i32, i32) {
     let a = rng.gen_range(-2_0000_0000i32..2_0000_0001);
     let b = rng.gen_range(-1_0000i32..1_0001);
     let code = [
-        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 19, 19, 18, 15, 4, 8, 2, 0,
+        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 10, 19, 18, 15, 4, 8, 2, 0,
     ][(v + 3) as usize];
     let c = code + rng.gen_range(-1000_0000i32..1000_0001) * 20 - a - b;
     (a, b, c)
-- 
2.43.0


From 22305ce8f226ec965cd042d4e2632de9eb9da69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:22 +0000
Subject: [PATCH 18/46] fix: SafeBoard no longer overflows for some random
 masks

---
 base/src/safe_board.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 92ea637..61558fb 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -22,13 +22,15 @@ fn encode(v: i32, rng: &mut rand::rngs::ThreadRng) -> (i32, i32, i32) {
     let code = [
         7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 10, 19, 18, 15, 4, 8, 2, 0,
     ][(v + 3) as usize];
-    let c = code + rng.gen_range(-1000_0000i32..1000_0001) * 20 - a - b;
+    let c = (code + rng.gen_range(-1000_0000i32..1000_0001) * 20)
+        .wrapping_sub(a)
+        .wrapping_sub(b);
     (a, b, c)
 }
 
 #[cfg(any(feature = "py", feature = "rs"))]
 fn decode(a: i32, b: i32, c: i32) -> i32 {
-    let mut t = (a + b + c) % 20;
+    let mut t = a.wrapping_add(b).wrapping_add(c) % 20;
     if t < 0 {
         t += 20
     }
-- 
2.43.0


From d6452686f15b58c084d9abf1361de326ede97f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 19/46] fix: evf, rmv and mvf parsers refuse an empty board
 instead of panicking

---
 base/src/videos/evf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 3 +++
 base/src/videos/rmv_video.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..963e62c 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -49,6 +49,9 @@ impl EvfVideo {
         self.data.is_fair = the_byte & 0b0010_0000 != 0;
         self.data.height = self.data.get_u8()? as usize;
         self.data.width = self.data.get_u8()? as usize;
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()? as usize;
         if self.data.height == 8 && self.data.width == 8 && self.data.mine_num == 10 {
             self.data.level = 3;
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..8724974 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,6 +44,9 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..60edf78 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -145,6 +145,9 @@ impl RmvVideo {
 
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.height == 0 || self.data.width == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()?.into();
 
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
-- 
2.43.0


From 69c1e682bb535b8a3c891dc8fa488f6a866953ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 20/46] fix: avf and mvf parsers refuse mines outside the board
 instead of panicking

---
 base/src/videos/avf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..3bcd43c 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c == 0 || d == 0 || c > self.data.height || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 8724974..10736e8 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -53,7 +53,9 @@ impl MvfVideo {
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if h >= self.data.height || w >= self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
-- 
2.43.0


From 9bae859ec76c813e36224271e3396c43ce72ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 21/46] fix: rmv and mvf parsers refuse a level byte that
 overflows

---
 base/src/videos/mvf_video.rs | 5 ++++-
 base/src/videos/rmv_video.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 10736e8..1ccec3a 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -121,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()?.checked_add(2) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 60edf78..05386de 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -186,7 +186,10 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()?.checked_add(3) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
         self.data.offset += (properties_size - 4) as usize;
 
-- 
2.43.0


From f5030de7ce3087da998e0c25ba32c81602218deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 22/46] fix: mvf parser no longer underflows when the event
 count is zero

---
 base/src/videos/mvf_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 1ccec3a..64239f5 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -260,7 +260,7 @@ impl MvfVideo {
                 y,
                 ..VideoActionStateRecorder::default()
             });
-        for _ in 0..event_size - 1 {
+        for _ in 1..event_size {
             for ii in 0..5 {
                 e[ii] = self.data.get_u8()?;
             }
-- 
2.43.0


From a7eeb86e50d245686eb06368d268206e5b2a0686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:52 +0000
Subject: [PATCH 23/46] fix: rmv parser no longer underflows on short header
 sections

---
 base/src/videos/rmv_video.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 05386de..9450a22 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,7 +101,7 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
-            for _ in 0..result_string_size - 3 {
+            for _ in 3..result_string_size {
                 self.data.get_u8()?;
             }
         }
@@ -191,6 +191,9 @@ impl RmvVideo {
             None => return Err(ErrReadVideoReason::InvalidLevel),
         };
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
-- 
2.43.0


From 61655ad8b657d09d4affb634efac329a2ab86789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 24/46] fix: rmv parser refuses a video without events instead
 of panicking

---
 base/src/videos/rmv_video.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 9450a22..ec37b16 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -252,9 +252,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(e) => e.time,
+            None => return Err(ErrReadVideoReason::InvalidVideoEvent),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From f8f20c0fb67a23649767959da64c83933dbb998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 25/46] fix: rmv parser no longer swaps row and column of the
 flags set before the game

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index ec37b16..efc8b46 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -172,8 +172,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From dec1e194718310858f5a6bf83db66b5a22e8003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 26/46] fix: mvf parser reports files it cannot read instead of
 calling them ready to analyse

---
 base/src/videos/mvf_video.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 64239f5..f42afa1 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -310,7 +310,6 @@ impl MvfVideo {
         Ok(())
     }
     pub fn parse_video(&mut self) -> Result<(), ErrReadVideoReason> {
-        self.data.can_analyse = true;
         // self.data.is_completed; // 该格式解析前不能确定是否扫完
         self.data.is_offical = true;
         self.data.is_fair = true;
@@ -324,12 +323,11 @@ impl MvfVideo {
                 //Clone 0.97
                 self.data.offset += 46;
                 self.data.software = "0.97 beta".as_bytes().to_vec();
-                return self.read_097();
-            } else {
-                Ok(())
+                self.read_097()?;
+                self.data.can_analyse = true;
+                return Ok(());
             }
-        } else {
-            Ok(())
         }
+        Err(ErrReadVideoReason::InvalidParams)
     }
 }
-- 
2.43.0


From a1c8989542af65777549290b72abbc8c40657173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:53 +0000
Subject: [PATCH 27/46] fix: encoding a parsed evf video keeps its checksum

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..160145f 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -327,7 +327,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 963e62c..29ccbf3 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -205,6 +205,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From 7ac1964cc37fe4b062d3719feb4d0c82904acd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 28/46] fix: probabilities before the first opening have the
 shape of the board and never underflow

---
 base/src/videos/base_video.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 160145f..e862468 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1121,11 +1121,11 @@ impl<T> BaseVideo<T> {
         let mut id = self.current_event_id;
         loop {
             if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
+                if id <= 1 {
                     let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
+                    return vec![vec![p; self.width]; self.height];
                 }
+                id -= 1;
             } else {
                 // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
                 return self.game_board_stream[self.video_action_state_recorder
-- 
2.43.0


From a1de0a77000d7f5839d9df7f8285c3bd8104e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 29/46] fix: seeking to exactly the time of the current event
 no longer steps back

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index e862468..5523505 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1213,7 +1213,7 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        if time >= self.video_action_state_recorder[self.current_event_id].time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
-- 
2.43.0


From 43111162ef3d2379e4e1082361dead631aa26267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 30/46] fix: get_x_y no longer underflows when the mouse has
 not been on the board yet

---
 base/src/videos/base_video.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 5523505..e56e293 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1725,6 +1725,7 @@ impl<T> BaseVideo<T> {
         loop {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
+                || k == self.current_event_id
             {
                 return Ok((
                     (self.video_action_state_recorder[self.current_event_id - k].x as f64
-- 
2.43.0


From 0654b00b99054b8655655b2f06dcb05dbb5e6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 31/46] fix: ce_s, rqp and qg of a played game use its time,
 not the playback time

---
 base/src/videos/base_video.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index e56e293..91512fe 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1612,14 +1612,24 @@ impl<T> BaseVideo<T> {
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        let t = if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        };
+        Ok(t.powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        let t = if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        };
+        Ok(t.powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1637,10 +1647,15 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        };
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From b2aa29ca0792e8ca290ee621810a49954309af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 32/46] fix: the running clock is rounded like the start time,
 so it cannot underflow

---
 base/src/videos/base_video.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 91512fe..9a81169 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1155,7 +1155,7 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
@@ -1442,7 +1442,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1462,7 +1462,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1482,7 +1482,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1502,7 +1502,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1522,7 +1522,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From 6e288a076c0f3ea919f3cdf9e452e1d42bcce6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 33/46] fix: reset forgets when the last game started

---
 base/src/videos/base_video.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 9a81169..522de13 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -645,6 +645,7 @@ impl BaseVideo<SafeBoard> {
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
+        self.game_start_ms = 0;
     }
     /// 两种情况调用：游戏开始前、可猜模式（尺寸相等，雷数不检查）
     pub fn set_board(&mut self, board: Vec<Vec<i32>>) -> Result<u8, ()> {
-- 
2.43.0


From 33e038735aeeb75a469004814645b94cb38c5e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 34/46] fix: a game decided by its first click records its
 start time

---
 base/src/videos/base_video.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 522de13..1eb09a2 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -835,6 +835,14 @@ impl<T> BaseVideo<T> {
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
+                if old_state != GameBoardState::Playing {
+                    self.start_time = SystemTime::now()
+                        .duration_since(UNIX_EPOCH)
+                        .unwrap()
+                        .as_micros()
+                        .to_string()
+                        .into_bytes();
+                }
                 let t_ms = time_ms - self.game_start_ms;
                 self.end_time = SystemTime::now()
                     .duration_since(UNIX_EPOCH)
@@ -853,6 +861,14 @@ impl<T> BaseVideo<T> {
                 self.gather_params_after_game(t);
             }
             GameBoardState::Win => {
+                if old_state != GameBoardState::Playing {
+                    self.start_time = SystemTime::now()
+                        .duration_since(UNIX_EPOCH)
+                        .unwrap()
+                        .as_micros()
+                        .to_string()
+                        .into_bytes();
+                }
                 let t_ms = time_ms - self.game_start_ms;
                 self.end_time = SystemTime::now()
                     .duration_since(UNIX_EPOCH)
-- 
2.43.0


From b4d9f693792c8ba955971df30318e382aa4957cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 35/46] fix: set_checksum works before encoding, and again
 after it

---
 base/src/videos/base_video.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 1eb09a2..17f8621 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1379,11 +1379,15 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
+        self.checksum = checksum;
+        if self.raw_data.is_empty() {
+            self.has_checksum = true;
+            return Ok(0);
+        }
         if !self.has_checksum {
             *self.raw_data.last_mut().unwrap() = 0;
             self.raw_data
                 .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
             self.has_checksum = true;
             return Ok(0);
         } else {
-- 
2.43.0


From 4d3e148687bdc1b525eea9888d7b2bc31979c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 36/46] fix: reset forgets the checksum of the last game

---
 base/src/videos/base_video.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 17f8621..53c4091 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -646,6 +646,8 @@ impl BaseVideo<SafeBoard> {
         self.video_dynamic_params = VideoDynamicParams::default();
         self.game_board_state = GameBoardState::Ready;
         self.game_start_ms = 0;
+        self.checksum = [0; 32];
+        self.has_checksum = false;
     }
     /// 两种情况调用：游戏开始前、可猜模式（尺寸相等，雷数不检查）
     pub fn set_board(&mut self, board: Vec<Vec<i32>>) -> Result<u8, ()> {
-- 
2.43.0


From 8f5bfaee199561c0f6bbfe47ad6416e00b76d5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:22 +0000
Subject: [PATCH 37/46] fix: is_valid reports a video without a readable time
 stamp as uncertain instead of panicking

---
 base/src/videos/base_video.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 53c4091..47dd2af 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1956,6 +1956,10 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
+            if self.start_time.len() < 10 || !self.start_time[..10].iter().all(u8::is_ascii_digit) {
+                // 没有可读的时间戳，报不确定
+                return 3;
+            }
             let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
                 + ((self.start_time[1] - 48) as u64) * 100000000
                 + ((self.start_time[2] - 48) as u64) * 10000000
-- 
2.43.0


From 390e1ade021090077a55a24ef282bc9cf969e157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:19 +0000
Subject: [PATCH 38/46] fix: a recorded position outside the board does not
 count into the path

---
 base/src/videos/base_video.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 47dd2af..2a2ac6f 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -897,6 +897,12 @@ impl<T> BaseVideo<T> {
                     || p.x as usize >= self.width * self.cell_pixel_size as usize)
                 {
                     path = p.path;
+                    // 局面外的位置是约定的记号，不计入路程
+                    if pos.0 >= self.height * self.cell_pixel_size as usize
+                        || pos.1 >= self.width * self.cell_pixel_size as usize
+                    {
+                        break;
+                    }
                     path += ((pos.0 as f64 - p.y as f64).powf(2.0)
                         + (pos.1 as f64 - p.x as f64).powf(2.0))
                     .powf(0.5)
-- 
2.43.0


From a9046cb8bf28e43c0aa932b5ecdaca8e6a4d6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:20 +0000
Subject: [PATCH 39/46] fix: boards laid by adjustment have all their mines and
 need no guess when reported so

---
 base/src/algorithms.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 4597d8c..43396af 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -836,13 +836,21 @@ pub fn laymine_solvable_adjust(
         }
     }
     // 开始递归求解
-    let (mut b, flag) = adjust_step(
-        &board,
-        &board_of_game,
-        &cells_plan_to_click,
-        remain_minenum,
-        remain_not_minenum,
-    );
+    // 走不通时从头再来，好过在错误的开头上穷尽所有分支
+    let (mut b, mut flag) = (vec![], false);
+    for _ in 0..100 {
+        (b, flag) = adjust_step(
+            &board,
+            &board_of_game,
+            &cells_plan_to_click,
+            remain_minenum,
+            remain_not_minenum,
+            &mut 100,
+        );
+        if flag {
+            break;
+        }
+    }
     // println!("+++++");
     // b.iter().for_each(|i| {
     //     i.iter()
@@ -890,6 +898,7 @@ fn adjust_step(
     plan_click: &Vec<(usize, usize)>, // 当前计划点开的格子，递归部分要保证点开后，局面是有解开的可能的
     remain_minenum: usize,           // 当前还要埋的雷数
     remain_not_minenum: usize,       // 当前还要埋的非雷数
+    budget: &mut usize,              // 剩余的尝试次数，避免在走不通的分支上耗尽时间
 ) -> (Vec<Vec<i32>>, bool) {
     let mut b = board.clone(); // 克隆一个board的备份
     let mut bg = board_of_game.clone(); // 克隆一个board_of_game的备份
@@ -921,7 +930,7 @@ fn adjust_step(
         .iter_mut()
         .for_each(|p| p.retain(|x| b[x.0][x.1] == -10));
     if front_xs_0[0].is_empty() {
-        if rn > 0 {
+        if rn > 0 || !is_all_opened(&b, &bg) {
             return (vec![], false);
         } else {
             return (b, true);
@@ -972,6 +981,10 @@ fn adjust_step(
         }
         // 对每种雷数，重复尝试5次。
         for _u in 0..3 {
+            if *budget == 0 {
+                return (vec![], false);
+            }
+            *budget -= 1;
             adjust_the_area_on_board(&mut b, &front_xs_0, minenum);
             // 以下的循环用来修正b向量
             for bb in 0..bs_0.len() {
@@ -1003,13 +1016,13 @@ fn adjust_step(
                 i.iter().for_each(|x| bg[x.0][x.1] = 11);
                 // println!("当前步骤成功！");
                 // success_flag = true; // 当前步骤成功
-                if rn <= n.len() {
+                if rn == xs_cell_num - minenum && is_all_opened(&b, &bg) {
                     return (b.clone(), true);
                 }
                 // pc.append(&mut n);
                 r -= minenum;
                 rn -= xs_cell_num - minenum;
-                let a = adjust_step(&b, &bg, &n, r, rn);
+                let a = adjust_step(&b, &bg, &n, r, rn, budget);
                 if a.1 {
                     if !a.0.is_empty() {
                         return (a.0, true);
@@ -1028,6 +1041,15 @@ fn adjust_step(
     return (vec![], false);
 }
 
+// 所有确定不埋雷的格子是否都已经打开
+fn is_all_opened(board: &Vec<Vec<i32>>, board_of_game: &Vec<Vec<i32>>) -> bool {
+    board
+        .iter()
+        .flatten()
+        .zip(board_of_game.iter().flatten())
+        .all(|(x, y)| *x != 0 || *y != 10)
+}
+
 // 在指定的局部（area_current_adjust）埋雷，不刷新board上的数字
 fn adjust_the_area_on_board(
     board: &mut Vec<Vec<i32>>,
-- 
2.43.0


From cd536753dee95be4c9c160f43cfff75cccf7d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 40/46] fix: the threaded generator returns a board found
 solvable by any of its threads

---
 base/src/algorithms.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 43396af..61c5b5a 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -748,7 +748,14 @@ pub fn laymine_solvable_thread(
     for handle in handles {
         handle.join().unwrap();
     }
-    let received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    let mut received = rx.recv().unwrap(); // 尝试次数仅仅为单个线程的次数，并不准
+    // 只要有一个线程找到了无猜局面，就用它；此时所有线程均已结束
+    while !received.1 {
+        match rx.try_recv() {
+            Ok(r) => received = r,
+            Err(_) => break,
+        }
+    }
     for i in 0..row {
         for j in 0..column {
             game_board[i][j] = received.0[i][j];
-- 
2.43.0


From 042c8da4a4ae7f5e2d20d29b10d10034f6af20ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 41/46] fix: sample_3BVs_exp samples exactly n boards

---
 base/src/algorithms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 61c5b5a..cc73e72 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1092,9 +1092,9 @@ fn adjust_the_area_on_board(
 pub fn sample_3BVs_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
     // 从标准高级中采样计算3BV
     // 16线程计算
-    let n0 = n / 16;
     let mut threads = vec![];
-    for _i in 0..16 {
+    for i in 0..16 {
+        let n0 = (n + i) / 16; // 16个线程合计恰好n局
         let join_item = thread::spawn(move || -> [usize; 382] { laymine_study_exp(x0, y0, n0) });
         threads.push(join_item);
     }
-- 
2.43.0


From eef204b7d4c9889fd70ab055eaa5f2bfc313dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 42/46] fix: cal_bbbv_exp counts joined openings once

---
 base/src/utils.rs | 44 ++------------------------------------------
 1 file changed, 2 insertions(+), 42 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index d113f6f..81801a7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1414,8 +1414,6 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
 // 专用于高级局面的3BV快速计算
 pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
     let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
     let mut bv = 0;
     for x in 0..16 {
         for y in 0..30 {
@@ -1423,22 +1421,11 @@ pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
                 board[x][y] = 1000000;
                 bv += 1;
             } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
                 if x >= 1 {
                     for j in max(1, y) - 1..min(30, y + 2) {
                         if board[x - 1][j] > 999999 {
                             board[x - 1][j] = 1;
                             bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
                         }
                     }
                 }
@@ -1446,21 +1433,8 @@ pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
                     if board[x][y - 1] > 999999 {
                         board[x][y - 1] = 1;
                         bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
                     }
                 }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
             }
         }
     }
@@ -1472,11 +1446,6 @@ pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
                         if board[x + 1][j] > 999999 {
                             board[x + 1][j] = 1;
                             bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
-                            }
                         }
                     }
                 }
@@ -1484,22 +1453,13 @@ pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
                     if board[x][y + 1] > 999999 {
                         board[x][y + 1] = 1;
                         bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
                     }
                 }
             }
         }
     }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
-        }
-    }
-    bv
+    // 此前只算出了不与空相邻的数字，再加上空的个数
+    bv + cal_op(Board)
 }
 
 // 把局面合法化：只能合法化简单的情况，不能应付所有的情况！因为检查一个局面是否合法也是NP难的
-- 
2.43.0


From d2c2a6c310c5df7be3834a0267d984d6e1440c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 43/46] fix: a guess is only called needless when some hidden
 cell is certainly safe

---
 base/src/videos/analyse_methods.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..18e5ac4 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -83,7 +83,15 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
             x = (video.video_action_state_recorder[ide].y / video.cell_pixel_size as u16) as usize;
             y = (video.video_action_state_recorder[ide].x / video.cell_pixel_size as u16) as usize;
 
-            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].get_poss()[x][y] > 0.0
+            let prior_game_board =
+                &mut video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id];
+            let poss = prior_game_board.get_poss().clone();
+            // 局面中存在必然安全的、未打开的格子，才是“可以判雷”
+            let can_judge = prior_game_board.game_board.iter().zip(poss.iter()).any(|(cells, ps)| {
+                cells.iter().zip(ps.iter()).any(|(&cell, &p)| cell >= 10 && p <= 0.0)
+            });
+            if poss[x][y] > 0.0
+                && can_judge
                 && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                     .get_basic_not_mine()
                     .contains(&(x, y))
-- 
2.43.0


From 31912b280a9d48cf9876addf41229f00a0e5762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:55 +0000
Subject: [PATCH 44/46] fix: survive_poss keeps the other remarks on the last
 event

---
 base/src/videos/analyse_methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 18e5ac4..915ef22 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -248,7 +248,8 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    // 追加在最后一个事件的评论之后，不覆盖其他分析方法的结果
+    video.video_action_state_recorder.last_mut().unwrap().comments.push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From 593cde1ed61d770543c70f690b7febd70199e7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:55 +0000
Subject: [PATCH 45/46] fix: super_fl_local no longer indexes past the board
 for a right press outside it

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 915ef22..68992da 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -282,8 +282,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0


From bbc9d9c77f949bba038b7790e4a4a110876a64b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:36 +0000
Subject: [PATCH 46/46] fix: a board exchanged during a game is checked for the
 win from its first cell

---
 base/src/videos/base_video.rs        | 1 +
 base/src/videos/minesweeper_board.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 2a2ac6f..20a82b7 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -678,6 +678,7 @@ impl BaseVideo<SafeBoard> {
         }
         self.board = SafeBoard::new(board);
         self.minesweeper_board.board = self.board.clone();
+        self.minesweeper_board.reset_pointer();
         Ok(0)
     }
 }
diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index d5e4dfe..191195d 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -820,6 +820,11 @@ impl<T> MinesweeperBoard<T> {
         }
         Ok(())
     }
+    /// 游戏中更换局面（可猜模式）后调用：指针之前的格子不一定还满足要求，须从头检查
+    pub(crate) fn reset_pointer(&mut self) {
+        self.pointer_x = 0;
+        self.pointer_y = 0;
+    }
     fn is_win(&mut self) -> bool
     where
         T: std::ops::Index<usize> + BoardSize,
-- 
2.43.0

