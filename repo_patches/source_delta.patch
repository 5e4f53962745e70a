From 9506c81ab817a5a383b989f52b4c125e13f84b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 01/41] fix: deserializing a skin ignores unknown keys without
 printing nor failing

---
 src/serde/serde_skin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde/serde_skin.rs b/src/serde/serde_skin.rs
index d45faae..0adde1f 100644
--- a/src/serde/serde_skin.rs
+++ b/src/serde/serde_skin.rs
@@ -150,8 +150,8 @@ impl<'de> de::Deserialize<'de> for MadSkin {
                         }
 
                         _ => {
-                            let _ = map.next_value::<String>()?;
-                            println!("unknown key: {key}");
+                            // unknown keys are ignored, whatever their value
+                            let _ = map.next_value::<de::IgnoredAny>()?;
                         }
                     }
                 }
-- 
2.43.0


From 5c2756f5292e4de99b91295ea436ce7240dc8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 02/41] fix: MadView::write flushes the standard output

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..37c2699 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0


From e013936a50b54c94a5321be15c274643c3c7b242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 03/41] fix: CompoundStyle::blend_with blends the background

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..1d9be4d 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -86,7 +86,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 436b9db585ac1b801191389dd3343a45903dbf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 04/41] fix: blending a StyledChar changes the way it is
 written

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From e93d35c887b777e93d3b73ea731fcaef3af36069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:02 +0000
Subject: [PATCH 05/41] fix: blending with a zero weight leaves the colors
 unchanged

---
 src/compound_style.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 1d9be4d..58524f4 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -79,8 +79,13 @@ impl CompoundStyle {
     /// with a weight in `[0..1]`.
     ///
     /// The `dest` color can be for example a [crossterm] color or a [coolor] one.
+    /// A `weight` of 0 lets the style unchanged.
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, dest: C, weight: f32) {
         debug_assert!(weight >= 0.0 && weight <= 1.0);
+        if weight == 0.0 {
+            // computing the blend would lose some precision
+            return;
+        }
         let dest: coolor::Color = dest.into();
         if let Some(fg) = self.object_style.foreground_color.as_mut() {
             let src: coolor::Color = (*fg).into();
-- 
2.43.0


From 881095e2a72419e4c709a5410177bb2126a1c629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 06/41] fix: CropWriter::queue_char replaces tabs as its other
 methods do

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..9577272 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if width < self.allowed {
             self.allowed -= width;
-- 
2.43.0


From 089335e93e6d8ac2437c1abfa2cd7097728fc78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 07/41] fix: tokens are measured as the composites they're
 added to, so that wrapped lines don't overflow

---
 src/tokens.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tokens.rs b/src/tokens.rs
index 820d640..8870510 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -1,7 +1,7 @@
 use {
     crate::*,
     minimad::*,
-    unicode_width::UnicodeWidthChar,
+    unicode_width::UnicodeWidthStr,
 };
 
 #[derive(Debug)]
@@ -32,20 +32,23 @@ pub(crate) fn tokenize<'s, 'c>(
         let mut token: Option<Token> = None;
         for (idx, char) in compound.src.char_indices() {
             let blank = char.is_whitespace() && !compound.code;
-            let char_width = char.width().unwrap_or(0);
+            let end = idx + char.len_utf8();
             if let Some(token) = token.as_mut() {
-                if token.blank == blank && token.width + char_width <= max_token_width {
-                    token.width += char_width;
-                    token.end_in_compound += char.len_utf8();
+                // the width of a string may be different from the sum of the widths of its
+                // chars, and composites are measured by string widths
+                let width = compound.src[token.start_in_compound..end].width();
+                if token.blank == blank && width <= max_token_width {
+                    token.width = width;
+                    token.end_in_compound = end;
                     continue;
                 }
             }
             let new_token = Token {
                 compound: compound.clone(),
                 blank,
-                width: char_width,
+                width: compound.src[idx..end].width(),
                 start_in_compound: idx,
-                end_in_compound: idx + char.len_utf8(),
+                end_in_compound: end,
             };
             if let Some(token) = token.replace(new_token) {
                 tokens.push(token);
-- 
2.43.0


From f5001980c676b21ab9ba442dde17e7c2cc199331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 08/41] fix: hard wrapping never joins two words by dropping
 the blank between them

---
 src/fit/wrap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..ed13700 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -105,11 +105,15 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, width - first_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut line_done = false; // set when a blank didn't fit, what follows must go on a new line
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
-            if !token.blank {
+        if line_done || dst_composite.visible_length + token.width > width {
+            if token.blank {
                 // we skip blank composite at line change
+                line_done = true;
+            } else {
+                line_done = false;
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From 064f0855d67bf56b5bad3921b842c2c8d756a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 09/41] fix: wrapping a list item whose mark is wider than the
 available width doesn't panic

---
 src/fit/wrap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index ed13700..3629718 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,7 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    let mut tokens = tokenize(&src_composite.compounds, width.saturating_sub(first_width));
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     let mut line_done = false; // set when a blank didn't fit, what follows must go on a new line
-- 
2.43.0


From b2a6526002497cd74ffc0ef84000a734abeb634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 10/41] fix: fitting a composite doesn't panic on short words
 of wide chars

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..e08f40c 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // nothing to gain by replacing it with an ellipsis
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From 5ae1b58949b9f729b9a8dc123a243355cf24fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 11/41] fix: fitting a composite starting with an empty
 compound doesn't panic

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index e08f40c..66bde75 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -280,6 +280,10 @@ impl Fitter {
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
                 let char_infos = str_char_infos(compound.src);
+                if char_infos.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
                 loop {
-- 
2.43.0


From 704953bd5334260e20d0f9d0c16e98b0263630c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 12/41] fix: displaying a table with missing cells in a narrow
 area doesn't panic

---
 src/tbl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..dff38b9 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -129,12 +129,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
-                        //FIXME isn't this already done ?
+                        // this isn't already done when columns were removed
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From 59860edda90fac41e9ba1a2bf9286013b4b3a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 13/41] fix: scrolling by extreme amounts doesn't overflow

---
 src/views/list_view.rs | 4 ++--
 src/views/mad_view.rs  | 2 +-
 src/views/text_view.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..aff52a3 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,7 +360,7 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
@@ -375,7 +375,7 @@ impl<'t, T> ListView<'t, T> {
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(self.tbody_height() as i32))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 37c2699..1f0b834 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -72,7 +72,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..62870f5 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -143,7 +143,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From 019f971a0fc6ce8834077e89ed1ccb23bb9cb4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 14/41] fix: the scrollbar's thumb never leaves the available
 height

---
 src/area.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..2cfbef5 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -135,7 +135,7 @@ where
         return None;
     }
     let mut track_before = scroll * available_height / content_height;
-    if track_before == 0 && scroll > 0 {
+    if track_before == 0 && scroll > 0 && available_height > 1 {
         track_before = 1;
     }
     let thumb_height = available_height * available_height / content_height;
@@ -145,6 +145,10 @@ where
         scrollbar_bottom = scrollbar_bottom
             .min(top + available_height - 2)
             .max(scrollbar_top);
+    } else {
+        scrollbar_bottom = scrollbar_bottom
+            .min(top + available_height.saturating_sub(1))
+            .max(scrollbar_top);
     }
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
-- 
2.43.0


From ce42f1d0b04e0a085fb99b34d85682fd1f9fa6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 15/41] fix: an input field never writes a raw tab

---
 src/views/input_field.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..7aba714 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -629,13 +629,18 @@ impl InputField {
                             break;
                         }
                     }
-                    if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                    let style = if self.focused && selection.contains(i, y) {
                         // set terminal cursor position
                         terminal_cursor_pos =
                             Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        &self.cursor_style
                     } else {
-                        normal_style.queue(w, c)?;
+                        normal_style
+                    };
+                    if c == '\t' {
+                        style.queue_str(w, TAB_REPLACEMENT)?;
+                    } else {
+                        style.queue(w, c)?;
                     }
                     displayed_width += char_width;
                     if displayed_width >= width {
-- 
2.43.0


From 1dbac23b42be6d328ea4e54973869266b0e7e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 16/41] fix: cursor position of a horizontally scrolled input
 field

---
 src/views/input_field.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 7aba714..8b3f406 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -597,12 +597,14 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
+                let mut left = self.area.left; // column of the first rendered char
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
                     width -= 1;
+                    left += 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
@@ -619,7 +621,7 @@ impl InputField {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
                                 // set terminal cursor position
                                 terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
+                                    left + displayed_width as u16,
                                     self.area.top + j,
                                 ));
                             } else {
@@ -632,7 +634,7 @@ impl InputField {
                     let style = if self.focused && selection.contains(i, y) {
                         // set terminal cursor position
                         terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                            Some((left + displayed_width as u16, self.area.top + j));
                         &self.cursor_style
                     } else {
                         normal_style
@@ -651,7 +653,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From 6e737dfbd38ef913eee9b842253129ad17c6f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 17/41] fix: selecting the last visible row of a list doesn't
 underflow

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index aff52a3..ac7878e 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -437,7 +437,7 @@ impl<'t, T> ListView<'t, T> {
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = sel + 2 - tbody_height;
             }
         }
     }
-- 
2.43.0


From 4872741a06bff2e1781ce41df47690e23fc46338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 18/41] fix: scrolling down a list with few rows doesn't
 underflow

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index ac7878e..d594d42 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -368,7 +368,7 @@ impl<'t, T> ListView<'t, T> {
             };
         } else {
             self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+                .min((self.displayed_rows_count + 1).saturating_sub(self.tbody_height() as usize));
         }
         self.make_selection_visible();
     }
-- 
2.43.0


From a94343cd9ffec1c23ed3f26a8d47953c873c31ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 19/41] fix: thumb of a list which isn't at the top of the
 screen

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index d594d42..96d39e3 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -326,7 +326,7 @@ impl<'t, T> ListView<'t, T> {
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y - 2;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From c5718f9acd44df260805fe4fc347cc9fb191f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 20/41] fix: the scrollbar of a list is in its area

---
 src/views/list_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 96d39e3..ad54837 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -246,7 +246,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = (self.area.left + self.area.width).saturating_sub(1);
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
-- 
2.43.0


From 8693665d5ec25e90a1ca3828707afbdd53f7c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 21/41] fix: scrolling a filtered list reaches all its
 displayed rows

---
 src/views/list_view.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index ad54837..bd71588 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -290,7 +290,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.first_visible_row();
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -377,14 +377,29 @@ impl<'t, T> ListView<'t, T> {
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
         self.try_scroll_lines(pages_count.saturating_mul(self.tbody_height() as i32))
     }
+    /// index of the first row which isn't scrolled out: the scroll
+    /// only counts the displayed rows
+    fn first_visible_row(&self) -> usize {
+        let mut to_skip = self.scroll;
+        for (row_idx, row) in self.rows.iter().enumerate() {
+            if row.displayed {
+                if to_skip == 0 {
+                    return row_idx;
+                }
+                to_skip -= 1;
+            }
+        }
+        self.rows.len()
+    }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
         if self.displayed_rows_count == 0 {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
+            let first = self.first_visible_row();
             for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
+                let i = (i + first) % self.rows.len();
                 if self.rows[i].displayed {
                     self.selection = Some(i);
                     self.make_selection_visible();
@@ -434,6 +449,8 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            // the scroll only counts the displayed rows
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From 89bfe7e8b3b6013d8343bf7ba1ac778aefcdba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 22/41] fix: the selected row of a list of one or two lines is
 visible

---
 src/views/list_view.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index bd71588..a465a55 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -451,10 +451,11 @@ impl<'t, T> ListView<'t, T> {
         if let Some(sel) = self.selection {
             // the scroll only counts the displayed rows
             let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
+            // and at least the selected line must fit
             if sel <= self.scroll {
-                self.scroll = if sel > 2 { sel - 2 } else { 0 };
+                self.scroll = sel.saturating_sub(2.min(tbody_height.saturating_sub(1)));
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel + 2 - tbody_height;
+                self.scroll = sel + 2.min(tbody_height) - tbody_height;
             }
         }
     }
-- 
2.43.0


From dc9b990e37503b47de641561a23123ea2485becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 23/41] fix: the other end of a selection is clamped in its own
 line

---
 src/views/input_field_content.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..a27d99c 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -174,14 +174,7 @@ impl InputFieldContent {
         self.selection_tail = None;
     }
     pub fn set_selection_tail(&mut self, sel_tail: Pos) {
-        if sel_tail.y >= self.lines.len() {
-            self.selection_tail = Some(self.end());
-        } else {
-            self.selection_tail = Some(Pos {
-                y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
-            });
-        }
+        self.selection_tail = Some(self.make_valid_pos(sel_tail));
     }
     fn fix_pos(&mut self) {
         self.pos = self.make_valid_pos(self.pos);
-- 
2.43.0


From f463abf2151280c3144ccc0b04682dcb3394da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 24/41] fix: the cursor follows the current line when it's
 moved

---
 src/views/input_field_content.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index a27d99c..7bcf19d 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -450,8 +450,9 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
-            self.pos.y -= 1;
+        let Pos { x, y } = self.pos;
+        if y > 0 && self.swap_lines(y - 1, y) {
+            self.pos = Pos::new(x, y - 1);
             self.fix_selection();
             true
         } else {
@@ -461,8 +462,9 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
-            self.pos.y += 1;
+        let Pos { x, y } = self.pos;
+        if self.swap_lines(y + 1, y) {
+            self.pos = Pos::new(x, y + 1);
             self.fix_selection();
             true
         } else {
-- 
2.43.0


From bdfbb4147af6c19075b5231e24074a5265c3baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 25/41] fix: deleting a selection over several lines removes
 all of it

---
 src/views/input_field_content.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 7bcf19d..9addf3c 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -413,23 +413,19 @@ impl InputFieldContent {
                 self.lines[min.y].chars.drain(min.x..max.x + 1);
             }
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
+            let max_len = self.lines[max.y].chars.len();
+            if min.x == 0 && max.x == max_len {
+                // we remove whole lines
+                self.lines.drain(min.y..max.y + 1);
                 if self.lines.is_empty() {
                     self.lines.push(Line::default());
                 }
+            } else {
+                // what follows the selection is joined to what precedes it
+                let mut end = self.lines[max.y].chars.split_off((max.x + 1).min(max_len));
+                self.lines[min.y].chars.truncate(min.x);
+                self.lines[min.y].chars.append(&mut end);
+                self.lines.drain(min.y + 1..max.y + 1);
             }
         }
         self.set_cursor_pos(min);
-- 
2.43.0


From 9db95b3b1b785893cab345d100bd2ad2d7299229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 26/41] fix: the cursor stays visible on backspace, delete and
 double click

---
 src/views/input_field.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 8b3f406..ad3c4d9 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -311,17 +311,15 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_left()
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_below()
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
@@ -403,7 +401,7 @@ impl InputField {
                     }
                     MouseEventKind::Up(MouseButton::Left) if is_double_click => {
                         self.content.set_cursor_pos(Pos { x, y });
-                        self.content.select_word_around();
+                        self.select_word_around();
                     }
                     MouseEventKind::Drag(MouseButton::Left) => {
                         self.content.make_selection();
-- 
2.43.0


From 43e458d540b309059e0139a898f576ac85930263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 27/41] fix: the line of the cursor is visible when going down

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index ad3c4d9..e1d1d93 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -497,8 +497,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From 095e192ca27e3959702a04aca65b071d2c95a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:14 +0000
Subject: [PATCH 28/41] fix: the cursor is visible in input fields less than 4
 columns wide

---
 src/views/input_field.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index e1d1d93..ef9a1c1 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -478,7 +478,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -512,16 +512,14 @@ impl InputField {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
+                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
-                    if pos.x < 2 {
-                        self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
+                    if wpx < self.scroll.x {
+                        self.scroll.x = wpx;
+                    } else if wpx >= self.scroll.x + width {
+                        self.scroll.x = wpx + 1 - width;
                     }
                 } else {
-                    let wpx = line.char_idx_to_col(pos.x);
                     if wpx < self.scroll.x + 2 {
                         if wpx < 2 {
                             self.scroll.x = 0;
-- 
2.43.0


From b0de55be81e5b33649dc1f6fc39afe18f1fe3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 29/41] fix: bring the cursor of an input field into view when
 a click focuses it

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index ef9a1c1..1b06e73 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -362,7 +362,7 @@ impl InputField {
                     .unwrap_or(line.chars.len());
                 self.content.set_cursor_pos(Pos { x, y });
             } else {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
@@ -416,7 +416,7 @@ impl InputField {
                     _ => {}
                 }
             } else if matches!(kind, MouseEventKind::Down(MouseButton::Left)) {
-                self.focused = true;
+                self.set_focus(true);
             }
             true
         } else {
-- 
2.43.0


From 47d90c9061b702c6d945b8efdc6709f81396f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:11 +0000
Subject: [PATCH 30/41] fix: leave raw mode when the combination of keys can't
 be enabled in an event source

---
 src/events/event_source.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/events/event_source.rs b/src/events/event_source.rs
index 3fbe6df..6b7db92 100644
--- a/src/events/event_source.rs
+++ b/src/events/event_source.rs
@@ -142,7 +142,14 @@ impl EventSource {
         let mut combiner = Combiner::default();
         terminal::enable_raw_mode()?;
         let is_combining_keys = if options.combine_keys {
-            combiner.enable_combining()?
+            match combiner.enable_combining() {
+                Ok(is_combining_keys) => is_combining_keys,
+                Err(e) => {
+                    // there's no source whose drop would restore the terminal
+                    let _ = terminal::disable_raw_mode();
+                    return Err(e.into());
+                }
+            }
         } else {
             false
         };
-- 
2.43.0


From a66130bbcc8a72d083d228679f9ecdc99b61253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 31/41] fix: Question::ask returns an error at the end of the
 input instead of asking forever

---
 src/ask.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..a571722 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let read = io::stdin().read_line(&mut input)?;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if read == 0 {
+                // end of input: asking again would never end
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From 113219ce05af9e681fa9fa8fc342f50d2e5a1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 32/41] fix: a color name is the whole word, so that dark
 colors aren't read as bright ones

---
 src/parse/parse_color.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..5786e17 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkgrey$"i => Color::DarkGrey,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From 61a1331481371ab52f79206d237deab7a494bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 33/41] fix: the reset color is written and read as a word,
 instead of shifting the next color

---
 src/parse/parse_color.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 5786e17..ea36fd3 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,7 +19,7 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
+        Color::Reset => write!(f, "reset"),
         Color::Black => write!(f, "Black"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
@@ -93,6 +93,7 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
         "^grey$"i => Color::Grey,
         "^magenta$"i => Color::Magenta,
         "^red$"i => Color::Red,
+        "^reset$"i => Color::Reset,
         "^yellow$"i => Color::Yellow,
         "^darkyellow$"i => Color::DarkYellow,
         "^white$"i => Color::AnsiValue(231),
-- 
2.43.0


From e9bd9ba012a59e02c6f94f1d062ad27037c7dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 34/41] fix: an attribute name is the whole word, so that
 NoBold isn't read as Bold

---
 src/parse/mod.rs             |  2 +-
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..cdb319f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -111,7 +111,7 @@ pub fn style_tokens_to_string(tokens: &[StyleToken]) -> String {
 }
 
 pub fn parse_style_token(s: &str) -> Result<StyleToken, ParseStyleTokenError> {
-    if regex_is_match!("none"i, s) {
+    if regex_is_match!("^none$"i, s) {
         return Ok(StyleToken::None);
     }
     if let Ok(number) = s.parse() {
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..4ddda24 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("^crossed[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
-- 
2.43.0


From 62e76eb8afb8880df022ab86fc9105359109188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 35/41] fix: strikeout is read as an attribute, as documented
 for compound styles

---
 src/parse/parse_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 4ddda24..7ac7218 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -44,7 +44,7 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
     if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("^crossed[_-]?out$"i, s) {
+    } else if regex_is_match!("^(?:crossed[_-]?out|strikeout)$"i, s) {
         Ok(Attribute::CrossedOut)
     } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-- 
2.43.0


From 2e8c65e998b84649d84ed139b89ddce6f0585e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 36/41] fix: write_style_tokens separates the tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index cdb319f..57b0caf 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From 33ba29102512d4ad126699f717d1a8cacb0725aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 37/41] fix: big margins aren't written as 0 in a line style

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..2dfbab7 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(65535) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(65535) as u16));
         }
     }
 }
-- 
2.43.0


From 6b7da9936f0a14539da7905d2d4f2c8daa3a1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 38/41] fix: a styled char which is a digit is read back

---
 src/parse/parse_styled_char.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse/parse_styled_char.rs b/src/parse/parse_styled_char.rs
index 0ed3155..6b1cce7 100644
--- a/src/parse/parse_styled_char.rs
+++ b/src/parse/parse_styled_char.rs
@@ -14,6 +14,8 @@ pub fn parse_styled_char(
         .iter()
         .find_map(|token| match token {
             StyleToken::Char(c) => Some(*c),
+            // a digit looks like a dimension
+            StyleToken::Dimension(d) => char::from_digit(u32::from(*d), 10),
             _ => None,
         })
         .unwrap_or(default_nude_char);
-- 
2.43.0


From f16a948038538bc016cdf4be7e647385a8b6db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 39/41] fix: a scrollbar style is written as one char only when
 nothing is lost

---
 src/serde/serde_scrollbar_style.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..b510c3d 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -28,14 +28,12 @@ pub enum ScrollBarStyleDef {
 
 impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
-        let simple = sc.track.nude_char() == sc.thumb.nude_char()
-            && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
-        if simple {
-            Self::Simple(StyledChar::new(
-                CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-                sc.track.nude_char(),
-            ))
+        let simple = StyledChar::new(
+            CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
+            sc.track.nude_char(),
+        );
+        if ScrollBarStyle::from(simple.clone()) == *sc {
+            Self::Simple(simple)
         } else {
             Self::Rich {
                 track: sc.track.clone(),
-- 
2.43.0


From 761542e12680a877b44c23ded0cf22a39fbb00ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 40/41] fix: the scrollbar of more than 65535 lines or rows is
 computed for all of them

---
 src/views/list_view.rs | 4 ++--
 src/views/text_view.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index a465a55..58edb09 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,8 +163,8 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
             self.area.top,
         )
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 62870f5..4344eb6 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -84,7 +84,7 @@ impl<'a, 't> TextView<'a, 't> {
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
             self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+                .scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From e2e53c94ec2b73f98b1600ebb44871fc3fbd26c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 41/41] fix: the scrollbar of an input field of more than 65535
 lines is computed for all of them

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1b06e73..b01e0ce 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -560,7 +560,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width -= 1;
         }
-- 
2.43.0

