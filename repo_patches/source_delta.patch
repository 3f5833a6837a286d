From 71ba3f6ff5cf100a2b42aa8ed38ff57c8b9e20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 01/71] fix: don't join words when the blank separating them is
 dropped by wrapping

---
 src/fit/wrap.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..540b982 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -105,11 +105,13 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, width - first_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut line_change = false; // true when a blank has been skipped at the end of the line
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
+        if line_change || dst_composite.visible_length + token.width > width {
+            // we skip blank composite at line change
+            line_change = token.blank;
             if !token.blank {
-                // we skip blank composite at line change
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From 37bdc47be5784e514b2c7892e7c90cc9013d9247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 02/71] fix: don't panic on wrapping a composite whose mark is
 wider than the available width

---
 src/fit/wrap.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 540b982..5c7563e 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,10 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(
+        &src_composite.compounds,
+        width.saturating_sub(first_width).max(1),
+    );
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     let mut line_change = false; // true when a blank has been skipped at the end of the line
-- 
2.43.0


From 09f96b675a75cfaa19579612f198d278063ce2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 03/71] fix: justify code blocks to their wrapped width so that
 they don't overflow

---
 src/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index fce441a..6ac8c9c 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -60,13 +60,14 @@ impl<'k, 's> FmtText<'k, 's> {
             .map(|mline| FmtLine::from(mline, skin))
             .collect();
         tbl::fix_all_tables(&mut lines, width.unwrap_or(usize::MAX), skin);
-        code::justify_blocks(&mut lines);
         if let Some(width) = width {
             if width >= 3 {
                 lines =
                     wrap::hard_wrap_lines(lines, width, skin).expect("width should be wide enough");
             }
         }
+        // must be done after wrapping, which changes the widths of the lines
+        code::justify_blocks(&mut lines);
         FmtText { skin, lines, width }
     }
     /// set the width to render the text to.
-- 
2.43.0


From cc3005501420a6b3835e843d72443d4f7f65fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 04/71] fix: don't panic on wrapping an incomplete row of a
 table whose columns are removed

---
 src/tbl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..936d9f8 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
                         //FIXME isn't this already done ?
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From ed66ca073566c89c067ca9626a35b33f212bbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 05/71] fix: a table rule without columns is one column wide,
 as computed for its alignment

---
 src/skin.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..af5ea0d 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -638,15 +638,17 @@ impl MadSkin {
                     }
                     self.table.repeat_char(f, tbc.horizontal, width)?;
                 }
-                write!(
-                    f,
-                    "{}",
-                    self.table.compound_style.apply_to(match rule.position {
-                        RelativePosition::Top => tbc.top_right_corner,
-                        RelativePosition::Other => tbc.right_junction,
-                        RelativePosition::Bottom => tbc.bottom_right_corner,
-                    })
-                )?;
+                if !rule.widths.is_empty() {
+                    write!(
+                        f,
+                        "{}",
+                        self.table.compound_style.apply_to(match rule.position {
+                            RelativePosition::Top => tbc.top_right_corner,
+                            RelativePosition::Other => tbc.right_junction,
+                            RelativePosition::Bottom => tbc.bottom_right_corner,
+                        })
+                    )?;
+                }
                 if with_right_completion {
                     self.paragraph.repeat_space(f, rpo)?;
                 }
-- 
2.43.0


From b90007cc0d5041c8d7d61693fe93787fba68e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 06/71] fix: don't panic when ellision would only remove zero
 width chars

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..3a8cd49 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // nothing would be gained (there may be zero width chars)
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From 1949783f1122433e21e7269c9f9f08cbf9be0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 07/71] fix: don't panic on left truncating a composite having
 an empty compound

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 3a8cd49..c602ccd 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -280,6 +280,10 @@ impl Fitter {
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
                 let char_infos = str_char_infos(compound.src);
+                if char_infos.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
                 loop {
-- 
2.43.0


From df1bef43da7d04d48e641026a0ffc97f51eacfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:17 +0000
Subject: [PATCH 08/71] fix: replace tabs in CropWriter::queue_char, as they'd
 cover columns not accounted for

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..9577272 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if width < self.allowed {
             self.allowed -= width;
-- 
2.43.0


From 56ba6cb6724c5e160ca9611418e15e9ed177f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:20 +0000
Subject: [PATCH 09/71] fix: don't compute a scrollbar going out of the area

---
 src/area.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..a36bc9a 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -139,13 +139,15 @@ where
         track_before = 1;
     }
     let thumb_height = available_height * available_height / content_height;
-    let scrollbar_top = top + track_before;
+    let last = top + available_height.saturating_sub(1);
+    let scrollbar_top = (top + track_before).min(last);
     let mut scrollbar_bottom = scrollbar_top + thumb_height;
     if scroll + available_height < content_height && available_height > 3 {
         scrollbar_bottom = scrollbar_bottom
             .min(top + available_height - 2)
             .max(scrollbar_top);
     }
+    let scrollbar_bottom = scrollbar_bottom.min(last);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From c0422bfa3ddffab6441a5d54fcdc1203953a4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 10/71] fix: draw rects whose width or height is less than 2
 inside their area, without panic

---
 src/rect.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/rect.rs b/src/rect.rs
index 4ec1963..c2c9c2c 100644
--- a/src/rect.rs
+++ b/src/rect.rs
@@ -100,6 +100,9 @@ impl<'s> Rect<'s> {
         let area = &self.area;
         let cs = &self.colors;
         let bs = &self.border_style;
+        if area.width == 0 || area.height == 0 {
+            return Ok(());
+        }
         let mut y = area.top;
         w.queue(cursor::MoveTo(area.left, y))?;
         cs.queue(w, bs.top_left)?;
@@ -108,7 +111,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.top)?;
             }
         }
-        cs.queue(w, bs.top_right)?;
+        if area.width > 1 {
+            cs.queue(w, bs.top_right)?;
+        }
         y += 1;
         while y < area.top + area.height - 1 {
             w.queue(cursor::MoveTo(area.left, y))?;
@@ -120,7 +125,9 @@ impl<'s> Rect<'s> {
             } else {
                 w.queue(cursor::MoveTo(area.left + area.width - 1, y))?;
             }
-            cs.queue(w, bs.right)?;
+            if area.width > 1 {
+                cs.queue(w, bs.right)?;
+            }
             y += 1;
         }
         w.queue(cursor::MoveTo(area.left, area.bottom() - 1))?;
@@ -130,7 +137,9 @@ impl<'s> Rect<'s> {
                 cs.queue(w, bs.bottom)?;
             }
         }
-        cs.queue(w, bs.bottom_right)?;
+        if area.width > 1 {
+            cs.queue(w, bs.bottom_right)?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From b0e60da36afc7ec040f9936e2e0fa27823a98f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 11/71] fix: don't apply margins which would make a line
 overflow the width

---
 src/skin.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index af5ea0d..62cb390 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -519,13 +519,19 @@ impl MadSkin {
         with_margins: bool,
     ) -> fmt::Result {
         let ls = self.line_style(fc.kind);
-        let (left_margin, right_margin) = if with_margins {
+        let (mut left_margin, mut right_margin) = if with_margins {
             ls.margins_in(outer_width)
         } else {
             (0, 0)
         };
         let (lpi, rpi) = fc.completions(); // inner completion
         let inner_width = fc.spacing.map_or(fc.visible_length, |sp| sp.width);
+        if outer_width.map_or(false, |w| inner_width + left_margin + right_margin > w) {
+            // happens when the text was wrapped without margins, for a width a
+            // little smaller than this one
+            left_margin = 0;
+            right_margin = 0;
+        }
         let (lpo, rpo) = Spacing::optional_completions(
             ls.align,
             inner_width + left_margin + right_margin,
-- 
2.43.0


From 8aadf7bd7402867f99b52018b87ef393ed1d0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 12/71] fix: wrong scrollbar of texts of more than 65535 lines

---
 src/views/text_view.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..5a032a4 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -83,8 +83,7 @@ impl<'a, 't> TextView<'a, 't> {
     ///  the available space (or if show_scrollbar is false).
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
-            self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+            self.area.scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From ad0158784a1f7b7c772f3d704e8ad0bb25fb906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 13/71] fix: don't fail on text views scrolls of extreme
 amounts

---
 src/views/mad_view.rs  | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..831f848 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -69,7 +69,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 5a032a4..00e9daf 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -142,7 +142,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From f71159be16b818e83d77d2c4775aeca338773e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 14/71] fix: keep the scroll of a MadView in its bounds when
 it's resized

---
 src/views/mad_view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 831f848..51282ff 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,8 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        // ensure the scroll is still in bounds
+        self.try_scroll_lines(0);
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 8e991d51d2a2280d9515b93909aca5f2af8ed4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 15/71] fix: draw the scrollbar of a list view in its area,
 with the thumb at the right place

---
 src/views/list_view.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..cc29bf8 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -162,11 +162,12 @@ impl<'t, T> ListView<'t, T> {
     ///  the available space.
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
+        let tbody_height = self.tbody_height();
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
-            self.tbody_height(),
-            self.area.top,
+            self.scroll,
+            self.displayed_rows_count,
+            tbody_height,
+            self.area.bottom() - tbody_height,
         )
     }
     pub fn add_row(&mut self, data: T) {
@@ -246,7 +247,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = (self.area.left + self.area.width).saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
@@ -325,8 +326,8 @@ impl<'t, T> ListView<'t, T> {
                 row_idx += 1;
             }
             if let Some((sctop, scbottom)) = scrollbar {
-                queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y;
+                queue!(w, MoveTo(sx, y))?;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From 0b718007bef96c96cb072c0fe4dd7b4ec2bf6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:20 +0000
Subject: [PATCH 16/71] fix: don't erase what is at the right of the area of a
 list view

---
 src/views/list_view.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index cc29bf8..0c69362 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -8,10 +8,6 @@ use {
                 Color,
                 SetBackgroundColor,
             },
-            terminal::{
-                Clear,
-                ClearType,
-            },
         },
         errors::Result,
         gray,
@@ -20,6 +16,7 @@ use {
         CompoundStyle,
         MadSkin,
         Spacing,
+        SPACE_FILLING,
     },
     std::{
         cmp::Ordering,
@@ -297,7 +294,8 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    queue!(w, Clear(ClearType::UntilNewLine))?;
+                    let width = self.area.width as usize - usize::from(scrollbar.is_some());
+                    SPACE_FILLING.queue_unstyled(w, width)?;
                     break;
                 }
                 if self.rows[row_idx].displayed {
-- 
2.43.0


From dc496c98a51a89cd28389a1d59fe9fc96e18716a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 17/71] fix: don't fail on scrolling a list view having few
 rows, or of extreme amounts

---
 src/views/list_view.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 0c69362..1861fd2 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -359,22 +359,27 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
                 self.scroll - lines_count
             };
         } else {
-            self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+            let tbody_height = self.tbody_height() as usize;
+            let max_scroll = if self.displayed_rows_count > tbody_height {
+                (self.displayed_rows_count - tbody_height + 1).min(self.displayed_rows_count - 1)
+            } else {
+                0
+            };
+            self.scroll = (self.scroll + lines_count as usize).min(max_scroll);
         }
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.tbody_height())))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From b3a457590a4718c88b6c4605139112581730264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:25 +0000
Subject: [PATCH 18/71] fix: make_selection_visible failing or hiding the
 selection of a list view

---
 src/views/list_view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 1861fd2..a1ac708 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -439,9 +439,9 @@ impl<'t, T> ListView<'t, T> {
         }
         if let Some(sel) = self.selection {
             if sel <= self.scroll {
-                self.scroll = if sel > 2 { sel - 2 } else { 0 };
+                self.scroll = sel.saturating_sub(2.min(tbody_height.saturating_sub(1)));
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = (sel + 2).saturating_sub(tbody_height).min(sel);
             }
         }
     }
-- 
2.43.0


From 0b1d2f000e77d24b89b181dd737fb8e096c7f3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 19/71] fix: wrong scroll of list views having a filter

---
 src/views/list_view.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index a1ac708..3c5871d 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -64,7 +64,7 @@ pub struct ListView<'t, T> {
     columns: Vec<ListViewColumn<'t, T>>,
     rows: Vec<Row<T>>,
     pub area: Area,
-    scroll: usize,
+    scroll: usize, // number of displayed rows hidden at top
     pub skin: &'t MadSkin,
     filter: Option<Box<dyn Fn(&T) -> bool>>, // a function determining if the row must be displayed
     displayed_rows_count: usize,
@@ -288,7 +288,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.displayed_row(self.scroll).unwrap_or(self.rows.len());
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -381,20 +381,26 @@ impl<'t, T> ListView<'t, T> {
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
         self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.tbody_height())))
     }
+    /// return the index of the nth displayed row
+    fn displayed_row(&self, n: usize) -> Option<usize> {
+        self.rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .map(|(idx, _)| idx)
+            .nth(n)
+    }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
         if self.displayed_rows_count == 0 {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
-            for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
-                if self.rows[i].displayed {
-                    self.selection = Some(i);
-                    self.make_selection_visible();
-                    return;
-                }
-            }
+            self.selection = self
+                .displayed_row(self.scroll)
+                .or_else(|| self.displayed_row(0));
+            self.make_selection_visible();
+            return;
         }
         for i in 0..self.rows.len() {
             let delta_idx = if up { self.rows.len() - 1 - i } else { i + 1 };
@@ -438,6 +444,11 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            if !self.rows[sel].displayed {
+                return; // hidden by the filter
+            }
+            // the scroll is expressed in displayed rows
+            let sel = self.rows[..sel].iter().filter(|r| r.displayed).count();
             if sel <= self.scroll {
                 self.scroll = sel.saturating_sub(2.min(tbody_height.saturating_sub(1)));
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From 984e93e6c1396bc7cae59dc8795d5abbaea680cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:29 +0000
Subject: [PATCH 20/71] fix: keep the same row selected when adding a row to a
 sorted list view

---
 src/views/list_view.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 3c5871d..13fd98f 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -181,7 +181,13 @@ impl<'t, T> ListView<'t, T> {
         }
         self.rows.push(Row { data, displayed });
         if let Some(row_order) = &self.row_order {
-            self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
+            let mut rows: Vec<(usize, Row<T>)> = self.rows.drain(..).enumerate().collect();
+            rows.sort_by(|a, b| row_order(&a.1.data, &b.1.data));
+            // the selected row must stay selected
+            self.selection = self
+                .selection
+                .and_then(|sel| rows.iter().position(|(idx, _)| *idx == sel));
+            self.rows.extend(rows.into_iter().map(|(_, row)| row));
         }
     }
     /// remove all rows (and selection).
-- 
2.43.0


From f716aaeb96e55224b78bd6d6b0d05f7deaf40aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 21/71] fix: InputFieldContent::set_selection_tail checks the
 tail's own line

---
 src/views/input_field_content.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..a27d99c 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -174,14 +174,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
-        if sel_tail.y >= self.lines.len() {
-            self.selection_tail = Some(self.end());
-        } else {
-            self.selection_tail = Some(Pos {
-                y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
-            });
-        }
+        self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
-- 
2.43.0


From c206f6ab031c774cf58d927b9073b30f2d407a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 22/71] fix: delete on an empty last line doesn't remove it

---
 src/views/input_field_content.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index a27d99c..b606665 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -371,15 +371,7 @@ impl InputFieldContent {
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
-        if line_len == 0 {
-            if self.lines.len() > 1 {
-                self.lines.remove(self.pos.y);
-                self.fix_selection();
-                true
-            } else {
-                false
-            }
-        } else if self.pos.x < line_len {
+        if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
             self.fix_selection();
             true
-- 
2.43.0


From 9b0b6095ac4dd925d17bbf578b46211926eff70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 23/71] fix: deleting the selection removes exactly the
 selected chars

---
 src/views/input_field_content.rs | 51 ++++++++++----------------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index b606665..750d45d 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -387,43 +387,22 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
+        if min == max {
+            return self.del_char_below();
+        }
+        // the char at max is part of the selection, and it's the end
+        // of line when there's no other char there
+        let end = if max.x < self.lines[max.y].chars.len() {
+            Pos::new(max.x + 1, max.y)
+        } else if max.y + 1 < self.lines.len() {
+            Pos::new(0, max.y + 1)
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+            max
+        };
+        let mut after = self.lines[end.y].chars.split_off(end.x);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.append(&mut after);
+        self.lines.drain(min.y + 1..end.y + 1);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From f1fbca528a317d540e2a5ea625f12c20eee1861a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 24/71] fix: moving the current line keeps the cursor's column

---
 src/views/input_field_content.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 750d45d..849ba55 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -421,9 +421,9 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
-            self.pos.y -= 1;
-            self.fix_selection();
+        let Pos { x, y } = self.pos;
+        if y > 0 && self.swap_lines(y - 1, y) {
+            self.set_cursor_pos(Pos::new(x, y - 1));
             true
         } else {
             false
@@ -432,9 +432,9 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
-            self.pos.y += 1;
-            self.fix_selection();
+        let Pos { x, y } = self.pos;
+        if self.swap_lines(y + 1, y) {
+            self.set_cursor_pos(Pos::new(x, y + 1));
             true
         } else {
             false
-- 
2.43.0


From 1ed48e7aa4be589d8ae9139f42361c563d186f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 25/71] fix: cursor hidden when moving down in a multiline
 input field

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..87c4667 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -499,8 +499,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From ab8077167e8d291c37506353aa0cb1272297891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 26/71] fix: input field scroll fixed after deletion keys and
 clicks

---
 src/views/input_field.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 87c4667..8d19ad0 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -311,17 +311,17 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
+                self.del_selection();
                 true
             } else {
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
@@ -363,8 +363,9 @@ impl InputField {
                     .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
+                self.fix_scroll();
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -400,14 +401,17 @@ impl InputField {
                             self.content.unselect();
                         }
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
                         self.content.set_cursor_pos(Pos { x, y });
                         self.content.select_word_around();
+                        self.fix_scroll();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
                         self.content.set_cursor_pos(Pos { x, y });
+                        self.fix_scroll();
                     }
                     MouseEventKind::ScrollDown => {
                         self.scroll_down();
@@ -418,7 +422,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From 9c11c47f3f5132ae1ee98f315592ae93a8f75dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 27/71] fix: input field with no room for text

---
 src/views/input_field.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 8d19ad0..ce56a2e 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -484,7 +484,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -570,7 +570,7 @@ impl InputField {
             .area
             .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
         if scrollbar.is_some() {
-            width -= 1;
+            width = width.saturating_sub(1);
         }
 
         queue!(w, SetBackgroundColor(Color::Reset))?;
@@ -609,6 +609,9 @@ impl InputField {
                     width -= 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
+                    if displayed_width >= width {
+                        break;
+                    }
                     let c = if self.password_mode { '*' } else { *c };
                     let char_width = InputFieldContent::char_width(c);
                     if skipped_width < width_to_skip {
@@ -642,9 +645,6 @@ impl InputField {
                         normal_style.queue(w, c)?;
                     }
                     displayed_width += char_width;
-                    if displayed_width >= width {
-                        break;
-                    }
                 }
                 if displayed_width < width && cursor_at_end {
                     self.cursor_style.queue(w, ' ')?;
@@ -660,7 +660,7 @@ impl InputField {
             } else {
                 SPACE_FILLING.queue_styled(w, normal_style, width)?;
             }
-            if let Some((sctop, scbottom)) = scrollbar {
+            if let (Some((sctop, scbottom)), true) = (scrollbar, self.area.width > 0) {
                 let y = j + self.area.top;
                 if sctop <= y && y <= scbottom {
                     scrollbar_style.thumb.queue(w)?;
-- 
2.43.0


From 58e8cb58b227aff9462effcd679c78f0a3e53c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:22 +0000
Subject: [PATCH 28/71] fix: horizontal scroll of input fields with narrow
 areas or wide chars

---
 src/views/input_field.rs | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index ce56a2e..a6b894c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -516,28 +516,21 @@ impl InputField {
             self.scroll.x = 0;
         } else {
             if self.focused {
-                // we don't show ellipsis if the width is below 4
+                // there's no ellipsis at left if the width is 4 or less
                 // so we need less margin
-                if width < 4 {
-                    if pos.x < 2 {
-                        self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
-                    }
-                } else {
-                    let wpx = line.char_idx_to_col(pos.x);
-                    if wpx < self.scroll.x + 2 {
-                        if wpx < 2 {
-                            self.scroll.x = 0;
-                        } else {
-                            self.scroll.x = wpx - 2;
-                        }
-                    } else if wpx > self.scroll.x + width - 2 {
-                        self.scroll.x = wpx + 2 - width;
-                    }
-                }
+                let left_margin = if width > 4 { 2 } else { 1 };
+                let left = line.char_idx_to_col(pos.x);
+                let char_width = line
+                    .chars
+                    .get(pos.x)
+                    .map_or(1, |&c| InputFieldContent::char_width(c));
+                // at right there may be an ellipsis
+                let right = left + char_width + 1;
+                self.scroll.x = self
+                    .scroll
+                    .x
+                    .min(left.saturating_sub(left_margin))
+                    .max(right.saturating_sub(width).min(left));
             }
             if self.scroll.x + width > line_width + 1 {
                 self.scroll.x = line_width + 1 - width;
-- 
2.43.0


From 6206650e2c07994461ad0ba7ae9342413d4a55a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 29/71] fix: input fields write tabs as spaces

---
 src/views/input_field.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a6b894c..19c6d3c 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -629,6 +629,12 @@ impl InputField {
                             break;
                         }
                     }
+                    // a raw tab would move the terminal's cursor
+                    let mut char_bytes = [0; 4];
+                    let c: &str = match c {
+                        '\t' => TAB_REPLACEMENT,
+                        _ => c.encode_utf8(&mut char_bytes),
+                    };
                     if self.focused && selection.contains(i, y) {
                         self.cursor_style.queue(w, c)?;
                         // set terminal cursor position
-- 
2.43.0


From e1d4985caaeab29df7c4fe166d035e8dc64b8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 30/71] fix: terminal cursor position returned by
 InputField::display_on

---
 src/views/input_field.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 19c6d3c..a120aaf 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -594,12 +594,11 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
-                let mut width = width; // available width for rendering chars
-                                       // we don't show ellipsis if the width is 4 or less
+                // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
-                    width -= 1;
+                    displayed_width += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     if displayed_width >= width {
@@ -617,11 +616,13 @@ impl InputField {
                         if !is_last || displayed_width + char_width > width {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
-                                // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
+                                if pos.x == i && pos.y == y {
+                                    // set terminal cursor position
+                                    terminal_cursor_pos = Some((
+                                        self.area.left + displayed_width as u16,
+                                        self.area.top + j,
+                                    ));
+                                }
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
@@ -637,9 +638,13 @@ impl InputField {
                     };
                     if self.focused && selection.contains(i, y) {
                         self.cursor_style.queue(w, c)?;
-                        // set terminal cursor position
-                        terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        if pos.x == i && pos.y == y {
+                            // set terminal cursor position
+                            terminal_cursor_pos = Some((
+                                self.area.left + displayed_width as u16,
+                                self.area.top + j,
+                            ));
+                        }
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From 0905f29b941056a3f7a3cec6fe6f78092227ee80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:31 +0000
Subject: [PATCH 31/71] fix: wide char partially hidden at left of an input
 field

---
 src/views/input_field.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a120aaf..a99555e 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -609,6 +609,12 @@ impl InputField {
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
                         skipped_width += char_width;
+                        // a wide char may be only partially hidden
+                        while skipped_width > width_to_skip && displayed_width < width {
+                            normal_style.queue(w, ' ')?;
+                            skipped_width -= 1;
+                            displayed_width += 1;
+                        }
                         continue;
                     }
                     if displayed_width + char_width >= width {
-- 
2.43.0


From a6fcded406d2b663169e7513ff4feeb8e6770cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 32/71] fix: scrollbar of input fields with more than 65535
 lines

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a99555e..1e71386 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -561,7 +561,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width = width.saturating_sub(1);
         }
-- 
2.43.0


From 4b4fbe949fb72369fdb5ba1f0e0277b30f374d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:38 +0000
Subject: [PATCH 33/71] fix: click on the right half of a wide char

---
 src/views/input_field_content.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 849ba55..5c33d61 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -104,10 +104,10 @@ impl Line {
     pub fn col_to_char_idx(&self, col: usize) -> Option<usize> {
         let mut sum_widths = 0;
         for (idx, &c) in self.chars.iter().enumerate() {
-            if col <= sum_widths {
+            sum_widths += InputFieldContent::char_width(c);
+            if col < sum_widths {
                 return Some(idx);
             }
-            sum_widths += InputFieldContent::char_width(c);
         }
         None
     }
-- 
2.43.0


From 97ddb014083655be3b58ba14538de4c760645e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 34/71] fix: no stale selection after typing in an input field

---
 src/views/input_field.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1e71386..e2de3a9 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -292,6 +292,10 @@ impl InputField {
         }
         let key = key.into();
         if self.new_line_keys.contains(&key) {
+            if self.content.has_wide_selection() {
+                self.content.del_selection();
+            }
+            self.content.unselect();
             self.insert_new_line();
             return true;
         }
@@ -314,6 +318,7 @@ impl InputField {
                 self.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.del_char_left()
             }
         } else if code == KeyCode::Delete {
@@ -321,6 +326,7 @@ impl InputField {
                 self.del_selection();
                 true
             } else {
+                self.content.unselect();
                 self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
@@ -330,6 +336,7 @@ impl InputField {
                 self.fix_scroll();
                 true
             } else {
+                self.content.unselect();
                 self.put_char(c)
             }
         } else {
-- 
2.43.0


From 0397d01f018efc1bfc51f746272c5008ca42c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 35/71] fix: keys not handled by an input field don't change
 the selection

---
 src/views/input_field.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index e2de3a9..380e897 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -340,6 +340,19 @@ impl InputField {
                 self.put_char(c)
             }
         } else {
+            if !matches!(
+                code,
+                KeyCode::Home
+                    | KeyCode::End
+                    | KeyCode::Up
+                    | KeyCode::Down
+                    | KeyCode::Left
+                    | KeyCode::Right
+                    | KeyCode::PageUp
+                    | KeyCode::PageDown
+            ) {
+                return false;
+            }
             if shift {
                 self.content.make_selection();
             } else {
-- 
2.43.0


From c8b6f2670f863399a70cebd574d13a0b1489889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 36/71] fix: new line keys in InputField::apply_event and
 apply_timed_event

---
 src/views/input_field.rs | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 380e897..356de4e 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -456,17 +456,7 @@ impl InputField {
     pub fn apply_event(&mut self, event: &Event, is_double_click: bool) -> bool {
         match event {
             Event::Mouse(mouse_event) => self.apply_mouse_event(*mouse_event, is_double_click),
-            Event::Key(KeyEvent {
-                code, modifiers, ..
-            }) if self.focused => {
-                if modifiers.is_empty() {
-                    self.apply_keycode_event(*code, false)
-                } else if *modifiers == KeyModifiers::SHIFT {
-                    self.apply_keycode_event(*code, true)
-                } else {
-                    false
-                }
-            }
+            Event::Key(key) => self.apply_key_combination(*key),
             _ => false,
         }
     }
-- 
2.43.0


From d20d8881b1bd445b42cd681dedbccfb02ae70cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 37/71] fix: input fields in password mode with wide chars or
 tabs

---
 src/views/input_field.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 356de4e..6c18759 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -1,5 +1,8 @@
 use {
-    super::*,
+    super::{
+        input_field_content::Line,
+        *,
+    },
     crate::{
         crossterm::{
             cursor,
@@ -378,7 +381,7 @@ impl InputField {
             if self.focused {
                 let y = ((y - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
+                let line = self.displayed_line(y);
                 let x = line
                     .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
                     .unwrap_or(line.chars.len());
@@ -405,7 +408,7 @@ impl InputField {
             if self.focused {
                 let y = ((row - self.area.top) as usize + self.scroll.y)
                     .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
+                let line = self.displayed_line(y);
                 let x = line
                     .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
                     .unwrap_or(line.chars.len());
@@ -488,6 +491,23 @@ impl InputField {
         }
     }
 
+    /// The char displayed in place of the given char of the content
+    const fn displayed_char(&self, c: char) -> char {
+        if self.password_mode {
+            '*'
+        } else {
+            c
+        }
+    }
+
+    /// The line as displayed, to compute columns
+    fn displayed_line(&self, y: usize) -> Line {
+        let chars = &self.content.lines()[y].chars;
+        Line {
+            chars: chars.iter().map(|&c| self.displayed_char(c)).collect(),
+        }
+    }
+
     fn fix_scroll(&mut self) {
         let mut width = self.area.width as usize;
         let height = self.area.height as usize;
@@ -520,7 +540,7 @@ impl InputField {
             }
         }
 
-        let line = self.content.current_line();
+        let line = self.displayed_line(pos.y);
         let line_width = line.width();
         if line_width < width {
             self.scroll.x = 0;
@@ -614,7 +634,7 @@ impl InputField {
                     if displayed_width >= width {
                         break;
                     }
-                    let c = if self.password_mode { '*' } else { *c };
+                    let c = self.displayed_char(*c);
                     let char_width = InputFieldContent::char_width(c);
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
-- 
2.43.0


From 0218f924a07206aa3d6d1f5dc4f9890d546abb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 38/71] fix: style tokens must be recognized only when they're
 whole words

---
 src/parse/mod.rs             |  2 +-
 src/parse/parse_align.rs     |  6 +++---
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 src/parse/parse_color.rs     | 30 +++++++++++++++---------------
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..cdb319f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -111,7 +111,7 @@ pub fn style_tokens_to_string(tokens: &[StyleToken]) -> String {
 }
 
 pub fn parse_style_token(s: &str) -> Result<StyleToken, ParseStyleTokenError> {
-    if regex_is_match!("none"i, s) {
+    if regex_is_match!("^none$"i, s) {
         return Ok(StyleToken::None);
     }
     if let Ok(number) = s.parse() {
diff --git a/src/parse/parse_align.rs b/src/parse/parse_align.rs
index 6ea3db9..07cda7d 100644
--- a/src/parse/parse_align.rs
+++ b/src/parse/parse_align.rs
@@ -21,11 +21,11 @@ pub fn write_align(f: &mut fmt::Formatter<'_>, a: Alignment) -> fmt::Result {
 
 /// Read a Minimad Alignment from a string.
 pub fn parse_align(s: &str) -> Result<Alignment, ParseAlignError> {
-    if regex_is_match!("left"i, s) {
+    if regex_is_match!("^left$"i, s) {
         Ok(Alignment::Left)
-    } else if regex_is_match!("center"i, s) {
+    } else if regex_is_match!("^center$"i, s) {
         Ok(Alignment::Center)
-    } else if regex_is_match!("right"i, s) {
+    } else if regex_is_match!("^right$"i, s) {
         Ok(Alignment::Right)
     } else {
         Err(ParseAlignError::Unrecognized)
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..4ddda24 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("^crossed[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..0462199 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,21 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From c306ad20487db98bad8f24047e23e8a31d0612ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 39/71] fix: hexadecimal colors must have 3 or 6 digits

---
 src/parse/parse_color.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0462199..705b5fd 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -74,7 +74,13 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        r"^#(?<r>[\da-f]{1,2})(?<g>[\da-f]{1,2})(?<b>[\da-f]{1,2})$"i => {
+        r"^#(?<r>[\da-f])(?<g>[\da-f])(?<b>[\da-f])$"i => {
+            let (Ok(r), Ok(g), Ok(b)) = (hex(r), hex(g), hex(b)) else {
+                return Err(ParseColorError::Unrecognized);
+            };
+            rgb(r, g, b)
+        }
+        r"^#(?<r>[\da-f]{2})(?<g>[\da-f]{2})(?<b>[\da-f]{2})$"i => {
             let (Ok(r), Ok(g), Ok(b)) = (hex(r), hex(g), hex(b)) else {
                 return Err(ParseColorError::Unrecognized);
             };
-- 
2.43.0


From 5066a6e9525cd9e7a6cd72464c269859e4f9889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 40/71] fix: Black, White and DarkGrey must be the same when
 written then parsed

---
 src/parse/parse_color.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 705b5fd..63f6e25 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -20,7 +20,8 @@ pub enum ParseColorError {
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
         Color::Reset => Ok(()),
-        Color::Black => write!(f, "Black"),
+        // "black" and "white" are read as the absolute ANSI colors 16 and 231
+        Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
         Color::DarkRed => write!(f, "DarkRed"),
@@ -34,7 +35,7 @@ pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
         Color::DarkMagenta => write!(f, "DarkMagenta"),
         Color::Cyan => write!(f, "Cyan"),
         Color::DarkCyan => write!(f, "DarkCyan"),
-        Color::White => write!(f, "White"),
+        Color::White => write!(f, "ansi(15)"),
         Color::Grey => write!(f, "Grey"),
         Color::Rgb { r, g, b } => write!(f, "rgb({r}, {g}, {b})"),
         Color::AnsiValue(code) => write!(f, "ansi({code})"),
@@ -91,6 +92,7 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
         "^cyan$"i => Color::Cyan,
         "^darkblue$"i => Color::DarkBlue,
         "^darkcyan$"i => Color::DarkCyan,
+        "^darkgr[ae]y$"i => Color::DarkGrey,
         "^darkgreen$"i => Color::DarkGreen,
         "^darkmagenta$"i => Color::DarkMagenta,
         "^darkred$"i => Color::DarkRed,
-- 
2.43.0


From 7f5c439326bc3741048394a9e6d64089f36aefd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 41/71] fix: the Reset color must not vanish when written

---
 src/parse/parse_color.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 63f6e25..9f6fc3c 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,7 +19,7 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
+        Color::Reset => write!(f, "reset"),
         // "black" and "white" are read as the absolute ANSI colors 16 and 231
         Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
@@ -99,6 +99,7 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
         "^green$"i => Color::Green,
         "^grey$"i => Color::Grey,
         "^magenta$"i => Color::Magenta,
+        "^reset$"i => Color::Reset,
         "^red$"i => Color::Red,
         "^yellow$"i => Color::Yellow,
         "^darkyellow$"i => Color::DarkYellow,
-- 
2.43.0


From 07360e57c79af6e1895223e3be55d10dbfeb5e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 42/71] fix: strikeout, given as example in the doc, must be a
 recognized attribute

---
 src/parse/parse_attribute.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 4ddda24..6b3b9ec 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -46,6 +46,8 @@ pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
         Ok(Attribute::Bold)
     } else if regex_is_match!("^crossed[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
+    } else if regex_is_match!("^strike[_-]?out$"i, s) {
+        Ok(Attribute::CrossedOut)
     } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
     } else if regex_is_match!("^italic$"i, s) {
-- 
2.43.0


From bb1e5413bf4135940de0792b3d28fe8eac7bc77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:00 +0000
Subject: [PATCH 43/71] fix: blinking attributes, which can be parsed, must be
 written too

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..22c7139 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -36,6 +36,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::CrossedOut,
     Attribute::Encircled,
     Attribute::OverLined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
 ];
 
 /// A style which may be applied to a compound
-- 
2.43.0


From 0644206f572eb6a63f5853814d9e9e3638d84394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 44/71] fix: write_style_tokens must separate the tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index cdb319f..57b0caf 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From dcab5033721727c07f57f6d1213cc7e01df4ea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 45/71] fix: a huge margin must not be written as 0

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..b4d1bd5 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(u16::MAX as usize) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(u16::MAX as usize) as u16));
         }
     }
 }
-- 
2.43.0


From 59db6de3ca404c0408e82ae7159ad2270db92282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 46/71] fix: a scrollbar style with attributes or no foreground
 must not be written in the simple form

---
 src/serde/serde_scrollbar_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..c050420 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -29,8 +29,12 @@ pub enum ScrollBarStyleDef {
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
         let simple = sc.track.nude_char() == sc.thumb.nude_char()
+            && sc.track.get_fg().is_some()
+            && sc.thumb.get_fg().is_some()
             && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
+            && sc.thumb.get_bg().is_none()
+            && sc.track.compound_style().attrs().is_empty()
+            && sc.thumb.compound_style().attrs().is_empty();
         if simple {
             Self::Simple(StyledChar::new(
                 CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-- 
2.43.0


From 65c770d736a68ac6f990c97ecd0a1d0f957ddb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 47/71] fix: margins of the headers given as a string must be
 applied

---
 src/serde/serde_skin.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index d45faae..5ec1a47 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -126,6 +126,12 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                                     if ls.align != Alignment::Unspecified {
                                         h.align = ls.align;
                                     }
+                                    if ls.left_margin > 0 {
+                                        h.left_margin = ls.left_margin;
+                                    }
+                                    if ls.right_margin > 0 {
+                                        h.right_margin = ls.right_margin;
+                                    }
                                 }
                             }
                             HeadersStyleInfo::Levels(mut vls) => {
-- 
2.43.0


From ce156f6daaf18ace298c5ddc56172b25a16d600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 48/71] fix: the list items indentation mode must be saved with
 the skin

---
 src/serde/serde_skin.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index 5ec1a47..7267693 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -6,6 +6,7 @@ use {
         parse_line_style,
         parse_styled_char,
         LineStyle,
+        ListItemsIndentationMode,
         MadSkin,
         TableBorderChars,
         ATTRIBUTES,
@@ -155,6 +156,21 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                             }
                         }
 
+                        "list_items_indentation_mode" | "list-items-indentation-mode" => {
+                            skin.list_items_indentation_mode =
+                                match map.next_value::<String>()?.as_str() {
+                                    "first_line_only" | "first-line-only" => {
+                                        ListItemsIndentationMode::FirstLineOnly
+                                    }
+                                    "block" => ListItemsIndentationMode::Block,
+                                    mode => {
+                                        return Err(de::Error::custom(format!(
+                                            "unknown list items indentation mode: {mode}"
+                                        )));
+                                    }
+                                };
+                        }
+
                         _ => {
                             let _ = map.next_value::<String>()?;
                             println!("unknown key: {key}");
@@ -206,6 +222,12 @@ impl Serialize for MadSkin {
             skin.serialize_entry("table_border_chars", key)?;
         }
 
+        let mode = match self.list_items_indentation_mode {
+            ListItemsIndentationMode::FirstLineOnly => "first_line_only",
+            ListItemsIndentationMode::Block => "block",
+        };
+        skin.serialize_entry("list_items_indentation_mode", mode)?;
+
         skin.end()
     }
 }
-- 
2.43.0


From 2ccddf5321e987821ded52358b1f73e382f13046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 49/71] fix: blend the background in CompoundStyle::blend_with

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 22c7139..8c76409 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -88,7 +88,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From e1104f4596fa8d1ccddbfcc9309709e827c9c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 50/71] fix: blending a styled char must change how it's
 painted

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 12715c9aea94fa62a9a55a43d68105d10b015346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 51/71] fix: limit_to_ascii must concern the scrollbar too

---
 src/skin.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skin.rs b/src/skin.rs
index 62cb390..6f9584e 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -168,6 +168,8 @@ impl MadSkin {
         self.bullet.set_char('*');
         self.quote_mark.set_char('>');
         self.horizontal_rule.set_char('-');
+        self.scrollbar.track.set_char('|');
+        self.scrollbar.thumb.set_char('#');
     }
 
     /// Blend the foreground and background colors (if any) into the given dest color,
-- 
2.43.0


From 8370858544354ddbb1dd7c6e53f89a558063c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 52/71] fix: count borders and column widths in the length of a
 table row

---
 src/line.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..1b2fc8e 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -43,7 +43,12 @@ impl<'s> FmtLine<'s> {
     pub fn visible_length(&self) -> usize {
         match self {
             FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
+            FmtLine::TableRow(row) => {
+                // cells are as wide as their column, and separated by borders
+                1 + row.cells.iter().fold(0, |s, c| {
+                    s + c.spacing.map_or(c.visible_length, |sp| sp.width.max(c.visible_length)) + 1
+                })
+            }
             FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
-- 
2.43.0


From bb109e5085d74d4ec004b361eb5c25950dc987ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 53/71] fix: don't panic when formatting for an area of null
 width

---
 src/skin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 6f9584e..cd43c42 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -365,7 +365,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
-- 
2.43.0


From 4b58ccd54f8e6136dabb40df7dc8443e608f930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 54/71] fix: don't panic when drawing a text view of null width

---
 src/views/text_view.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 00e9daf..eb55cd1 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -99,6 +99,9 @@ impl<'a, 't> TextView<'a, 't> {
 
     /// display the text in the area, taking the scroll into account.
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
+        if self.area.width == 0 {
+            return Ok(()); // there's no room, even for the scrollbar
+        }
         let scrollbar = self.scrollbar();
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
-- 
2.43.0


From 03aa2ccafb786870191128dff6155a91dd78ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:18 +0000
Subject: [PATCH 55/71] fix: don't panic when drawing a list view of null width

---
 src/views/list_view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 13fd98f..b002fa0 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -300,7 +300,8 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    let width = self.area.width as usize - usize::from(scrollbar.is_some());
+                    let width =
+                        (self.area.width as usize).saturating_sub(usize::from(scrollbar.is_some()));
                     SPACE_FILLING.queue_unstyled(w, width)?;
                     break;
                 }
-- 
2.43.0


From 9cc3175f18a489e1ac19a8894b745ed03254ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:59 +0000
Subject: [PATCH 56/71] fix: stop asking when the input ends

---
 src/ask.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..495b842 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let read_bytes = io::stdin().read_line(&mut input)?;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if read_bytes == 0 {
+                // there's nothing more to read
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From 23c5d390c4614eddb1a7e3a73b0f244f25ace4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 57/71] fix: restore the terminal when the event source can't
 be built

---
 src/events/event_source.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index 3fbe6df..3119896 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -142,7 +142,14 @@ impl EventSource {
         let mut combiner = Combiner::default();
         terminal::enable_raw_mode()?;
         let is_combining_keys = if options.combine_keys {
-            combiner.enable_combining()?
+            match combiner.enable_combining() {
+                Ok(is_combining_keys) => is_combining_keys,
+                Err(e) => {
+                    // there will be no source to drop
+                    terminal::disable_raw_mode()?;
+                    return Err(e.into());
+                }
+            }
         } else {
             false
         };
-- 
2.43.0


From 99eb8d10c816859ca898d3441c1f09d60d62d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 58/71] fix: overwrite the underline color in
 CompoundStyle::overwrite_with

---
 src/compound_style.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 8c76409..990ffd9 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -158,6 +158,10 @@ impl CompoundStyle {
             .object_style
             .background_color
             .or(self.object_style.background_color);
+        self.object_style.underline_color = other
+            .object_style
+            .underline_color
+            .or(self.object_style.underline_color);
         self.object_style
             .attributes
             .extend(other.object_style.attributes);
-- 
2.43.0


From 8450ce3f00358332fb4b592795399169113a9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 59/71] fix: apply the custom tab replacement of a crop writer
 to strings too

---
 src/fit/crop_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index 9577272..f30c906 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -42,6 +42,11 @@ where
     /// return a tuple containing a string containing either the given &str
     /// or the part fitting the remaining width, and the width of this string)
     pub fn cropped_str<'a>(&self, s: &'a str) -> (Cow<'a, str>, usize) {
+        if self.tab_replacement != DEFAULT_TAB_REPLACEMENT && s.contains('\t') {
+            let s = s.replace('\t', self.tab_replacement);
+            let (string, len) = StrFit::make_string(&s, self.allowed);
+            return (Cow::Owned(string), len);
+        }
         StrFit::make_cow(s, self.allowed)
     }
     pub fn queue_unstyled_str(&mut self, s: &str) -> Result<(), Error> {
-- 
2.43.0


From 19b262a11c6a261b00261a3476fd254ce15cf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 60/71] fix: keep the mark in the visible length of composites
 fitted in 0 or 1 column

---
 src/fit/composite_fit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index c602ccd..3045cc9 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -209,12 +209,12 @@ impl Fitter {
             return;
         } else if max_width == 0 {
             fc.compounds.clear();
-            fc.visible_length = 0;
+            fc.recompute_width(skin);
             return;
         } else if max_width == 1 {
             fc.compounds.clear();
             fc.compounds.push(Compound::raw_str(ELLIPSIS));
-            fc.visible_length = 1;
+            fc.recompute_width(skin);
             return;
         }
 
-- 
2.43.0


From b68340848d2205f555d7e612a0844ada7c578f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 61/71] fix: start a new escape sequence when one interrupts
 another

---
 src/events/event_source.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index 3119896..3d41b98 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -215,8 +215,9 @@ impl EventSource {
                             return;
                         }
                     }
-                    // the current event will be sent normally
-                } else if let crossterm::event::Event::Key(key) = ct_event {
+                    // the current event will be sent normally (or start a new sequence)
+                }
+                if let crossterm::event::Event::Key(key) = ct_event {
                     if is_seq_start(key) {
                         // starting a new sequence
                         current_escape_sequence = Some(EscapeSequence { keys: vec![key] });
-- 
2.43.0


From f2660a68361bb81f58fba07f2fbd6ce64f876ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:01 +0000
Subject: [PATCH 62/71] fix: a one column table fit is reported as reduced when
 its cells must be wrapped

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From 5a77a3caab4775b17402a2d4d0986ad71f12eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:26 +0000
Subject: [PATCH 63/71] fix: unknown table border chars must be refused when
 loading a skin

---
 src/serde/serde_skin.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index 7267693..b2893ff 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -151,9 +151,10 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                         // chars
                         "table_border_chars" | "table-border-chars" => {
                             let key = map.next_value::<String>()?;
-                            if let Some(chars) = TableBorderChars::by_key(&key) {
-                                skin.table_border_chars = chars;
-                            }
+                            skin.table_border_chars =
+                                TableBorderChars::by_key(&key).ok_or_else(|| {
+                                    de::Error::custom(format!("unknown table border chars: {key}"))
+                                })?;
                         }
 
                         "list_items_indentation_mode" | "list-items-indentation-mode" => {
-- 
2.43.0


From 1773653efd99a5265815351a0e953ec63a221859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:13 +0000
Subject: [PATCH 64/71] fix: MadView::write flushes stdout, as the write
 functions of the other views do

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 51282ff..95f86a6 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0


From ab7c84e676b33a2527e67ae020998e7165d325ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 65/71] fix: keep a blank inline code when wrapping in two
 parts

---
 src/fit/wrap.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 5c7563e..2712ef6 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -93,6 +93,7 @@ pub fn hard_wrap_composite<'s, 'c>(
             && compounds[0].src.width() + first_width <= width
             && compounds[2].src.width() + other_widths <= width
             && compounds[1].src.chars().all(char::is_whitespace)
+            && !compounds[1].code // spaces in code must be kept
     ) {
         dst_composite.add_compound(compounds[0].clone());
         let mut new_dst_composite = follow_up_composite(&dst_composite, skin);
-- 
2.43.0


From 34076ddb432368bc7fa710d3a576e61c58de937b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:57 +0000
Subject: [PATCH 66/71] fix: continuing lines of list items of the deepest
 level

---
 src/skin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index cd43c42..3bf9cb2 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -550,7 +550,7 @@ impl MadSkin {
         }
         if self.list_items_indentation_mode == ListItemsIndentationMode::Block {
             if let CompositeKind::ListItemFollowUp(depth) = fc.kind {
-                for _ in 0..depth + 1 {
+                for _ in 0..=depth {
                     write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
                 }
                 write!(f, "{}", self.paragraph.compound_style.apply_to(' '))?;
-- 
2.43.0


From a50c205d16296f6ce87b86abf7864eeeb16b9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 67/71] fix: excess of table columns removed proportionally

---
 src/fit/tbl_fit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 51b2690..d853106 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -153,8 +153,7 @@ impl TblFit {
         // Step 2
         // We remove excess proportionnally
         if excess > 0 {
-            let potential_total_gain_2 =
-                fits.iter().map(|c| c.width - 3).sum::<usize>().min(excess);
+            let potential_total_gain_2 = fits.iter().map(|c| c.width - 3).sum::<usize>();
             let excess_before_2 = excess;
             for c in fits.iter_mut() {
                 let gain_2 = div_ceil((c.width - 3) * excess_before_2, potential_total_gain_2);
-- 
2.43.0


From f112b855b1611d14d01cc65ac35e43765035d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:31 +0000
Subject: [PATCH 68/71] fix: list view rows overwrite what was drawn before at
 their right

---
 src/views/list_view.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index b002fa0..93d32a5 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -296,13 +296,15 @@ impl<'t, T> ListView<'t, T> {
         // rows, maybe scrolled
         let mut row_idx = self.displayed_row(self.scroll).unwrap_or(self.rows.len());
         let scrollbar = self.scrollbar();
+        let body_width =
+            (self.area.width as usize).saturating_sub(usize::from(scrollbar.is_some()));
+        let row_width = self.columns.iter().map(|c| c.spacing.width).sum::<usize>()
+            + self.columns.len().saturating_sub(1);
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    let width =
-                        (self.area.width as usize).saturating_sub(usize::from(scrollbar.is_some()));
-                    SPACE_FILLING.queue_unstyled(w, width)?;
+                    SPACE_FILLING.queue_unstyled(w, body_width)?;
                     break;
                 }
                 if self.rows[row_idx].displayed {
@@ -325,6 +327,8 @@ impl<'t, T> ListView<'t, T> {
                                 .write_counted_str(w, &cell.con, cell.width, cell.style)?;
                         }
                     }
+                    // overwriting what may have been drawn there before
+                    SPACE_FILLING.queue_unstyled(w, body_width.saturating_sub(row_width))?;
                     row_idx += 1;
                     break;
                 }
-- 
2.43.0


From 6c81950320787265a478e30c6284f84783a3be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:19 +0000
Subject: [PATCH 69/71] fix: no overflow for list columns of unlimited maximal
 width

---
 src/views/list_view.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 93d32a5..2adb626 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -215,12 +215,14 @@ impl<'t, T> ListView<'t, T> {
                 self.columns[i].spacing.width = self.columns[i].min_width;
             }
         } else {
-            let mut excess = available_width - sum_min_widths;
+            let mut excess = (available_width - sum_min_widths) as usize;
             for i in 0..self.columns.len() {
-                let d =
-                    ((self.columns[i].max_width - self.columns[i].min_width) as i32).min(excess);
+                let d = self.columns[i]
+                    .max_width
+                    .saturating_sub(self.columns[i].min_width)
+                    .min(excess);
                 excess -= d;
-                self.columns[i].spacing.width = self.columns[i].min_width + d as usize;
+                self.columns[i].spacing.width = self.columns[i].min_width + d;
             }
             // there might be some excess, but it's better to have some space at right rather
             //  than a too wide table
-- 
2.43.0


From 284cacf1754323eed35fa07039c7cb2fa67f92a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:58 +0000
Subject: [PATCH 70/71] fix: a huge scroll doesn't overflow

---
 src/area.rs            | 2 ++
 src/views/text_view.rs | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/area.rs b/src/area.rs
index a36bc9a..ececd98 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -134,6 +134,8 @@ where
     if content_height <= available_height {
         return None;
     }
+    // a scroll beyond the end shows the end
+    let scroll = scroll.min(content_height);
     let mut track_before = scroll * available_height / content_height;
     if track_before == 0 && scroll > 0 {
         track_before = 1;
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index eb55cd1..c12f94a 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -152,7 +152,7 @@ impl<'a, 't> TextView<'a, 't> {
                 self.scroll - lines_count
             };
         } else {
-            self.set_scroll(self.scroll + lines_count as usize);
+            self.set_scroll(self.scroll.saturating_add(lines_count as usize));
         }
     }
 
@@ -181,7 +181,7 @@ impl<'a, 't> TextView<'a, 't> {
     pub fn line_down(&mut self) -> bool {
         let content_height = self.content_height();
         let page_height = self.area.height as usize;
-        if self.scroll + page_height < content_height {
+        if self.scroll.saturating_add(page_height) < content_height {
             self.scroll += 1;
             true
         } else {
@@ -205,10 +205,10 @@ impl<'a, 't> TextView<'a, 't> {
     pub fn page_down(&mut self) -> bool {
         let content_height = self.content_height();
         let page_height = self.area.height as usize;
-        if self.scroll + 2 * page_height < content_height {
+        if self.scroll.saturating_add(2 * page_height) < content_height {
             self.scroll += page_height;
             true
-        } else if self.scroll + page_height < content_height {
+        } else if self.scroll.saturating_add(page_height) < content_height {
             self.scroll = content_height - page_height;
             true
         } else {
-- 
2.43.0


From 4856903cd42a93c1dc87e0fca04de353c2e44391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 71/71] fix: list cells and counted strings measured in columns

---
 src/spacing.rs         | 32 +++++++++++++++++++++++---------
 src/views/list_view.rs |  5 +++--
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/spacing.rs b/src/spacing.rs
index 999a6c7..d3bc920 100644
--- a/src/spacing.rs
+++ b/src/spacing.rs
@@ -4,6 +4,7 @@ use {
         errors::Result,
     },
     minimad::Alignment,
+    unicode_width::UnicodeWidthChar,
 };
 
 #[derive(Debug, Clone, Copy)]
@@ -12,11 +13,22 @@ pub struct Spacing {
     pub align: Alignment,
 }
 
-fn truncate(s: &str, max_chars: usize) -> &str {
-    match s.char_indices().nth(max_chars) {
-        None => s,
-        Some((idx, _)) => &s[..idx],
+fn char_width(c: char) -> usize {
+    c.width().unwrap_or(0)
+}
+
+/// Return the longest start of the string not wider than max_width
+/// columns, and its width
+fn truncate(s: &str, max_width: usize) -> (&str, usize) {
+    let mut width = 0;
+    for (idx, c) in s.char_indices() {
+        let cw = char_width(c);
+        if width + cw > max_width {
+            return (&s[..idx], width);
+        }
+        width += cw;
     }
+    (s, width)
 }
 
 impl Spacing {
@@ -67,8 +79,12 @@ impl Spacing {
     {
         if str_width >= self.width {
             // we must truncate
-            let s = truncate(s, self.width);
-            style.queue_str(w, s)?;
+            let (s, width) = truncate(s, self.width);
+            let mut con = s.to_string();
+            for _ in width..self.width {
+                con.push(' '); // a wide char may have been removed
+            }
+            style.queue(w, con)?;
         } else {
             // we must complete with spaces
             // This part could be written in a more efficient way
@@ -85,12 +101,10 @@ impl Spacing {
         }
         Ok(())
     }
-    // FIXME use the number of chars instead of their real width,
-    // the crop writer should be used when wide characters are expected
     pub fn write_str<W>(&self, w: &mut W, s: &str, style: &CompoundStyle) -> Result<()>
     where
         W: std::io::Write,
     {
-        self.write_counted_str(w, s, s.chars().count(), style)
+        self.write_counted_str(w, s, s.chars().map(char_width).sum(), style)
     }
 }
diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 2adb626..ea8687f 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -25,12 +25,13 @@ use {
             Write,
         },
     },
+    unicode_width::UnicodeWidthChar,
 };
 
 pub struct ListViewCell<'t> {
     con: String,
     style: &'t CompoundStyle,
-    width: usize, // length of content in chars
+    width: usize, // width of content in columns
 }
 
 pub struct Title {
@@ -75,7 +76,7 @@ pub struct ListView<'t, T> {
 
 impl<'t> ListViewCell<'t> {
     pub fn new(con: String, style: &'t CompoundStyle) -> Self {
-        let width = con.chars().count();
+        let width = con.chars().map(|c| c.width().unwrap_or(0)).sum();
         Self { con, style, width }
     }
 }
-- 
2.43.0

