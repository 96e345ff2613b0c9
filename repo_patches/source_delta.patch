From da89f18a6c08393054d8d77e48e00a4513ae566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:14 +0000
Subject: [PATCH 1/9] fix: do not panic on an object that has no elements and
 no material

---
 src/obj.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..ee4d5b9 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,13 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object with neither elements nor a material has no geometry.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From 57fc689d91f231cbaf6014930dbf8b2a892d676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:15 +0000
Subject: [PATCH 2/9] fix: resolve negative indices backwards from the latest
 vertex

A negative reference was subtracted from the number of vertices instead of
added to it, so that no relative index could ever be in range, and the
smallest isize overflowed.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index ee4d5b9..c178d33 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 2e92ac950201698b9ae141ed491457d3acfdcf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:16 +0000
Subject: [PATCH 3/9] fix: report a bad index in a line or face instead of
 dropping it

The first index that did not parse, or was out of range, ended the element
silently: the rest of the polygon was lost and the file still accepted.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index c178d33..f55bee4 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), Some("\n") | None) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From c3a789a5494b9ebe8075cd4ca6224ca3e652de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:17 +0000
Subject: [PATCH 4/9] fix: accept carriage return and CRLF line endings

The lexer recognised a carriage return as a newline but handed it on as a
token of its own that neither parser knows, so every file with CRLF line
endings was rejected.
---
 src/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..1c57fe1 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -116,7 +116,12 @@ impl<'a> Lexer<'a> {
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                // A carriage return and a line feed together end one line.
+                if ch == b'\r' && self.peek() == Some(&b'\n') {
+                    self.stream_position += 1;
+                }
+                // Every line ending is the same token to the parsers.
+                Some(&b"\n"[..])
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 9c53f33a1b8415ec15ae151144f2075628180c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:52 +0000
Subject: [PATCH 5/9] fix: reject o, s and usemtl statements that have no name

The newline after the keyword was taken for the name: `usemtl` alone on a
line selected a material called "\n", and `o` an object of that name.
---
 src/obj.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f55bee4..e5718c7 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -745,6 +745,15 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Advance the token stream one step, returning the next token unless the
+    /// current line has no more of them.
+    fn next_on_line(&mut self) -> Option<&'a str> {
+        match self.peek() {
+            Some("\n") => None,
+            _ => self.next(),
+        }
+    }
+
     /// Advance the token stream if the next token in the stream matches the
     /// input tag.
     ///
@@ -868,6 +877,12 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
+                if let Some("\n") = self.peek() {
+                    return self.error(
+                        ErrorKind::InvalidObjectStatement,
+                        "Got an `o` object declaration without an object name.".to_owned(),
+                    );
+                }
                 let object_name = self.next_string();
                 self.skip_one_or_more_newlines()?;
 
@@ -1163,7 +1178,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next_on_line() {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1194,7 +1209,7 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next_on_line() {
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 48061aac759b31de0744498b41597bcb4bf89225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:53 +0000
Subject: [PATCH 6/9] fix: reject newmtl and texture map statements that have
 no name

The newline after the keyword was taken for the name, so that `newmtl` alone
on a line declared a material called "\n", and `map_Kd` such a texture.
---
 src/mtl.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..a82c732 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -328,6 +328,19 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Advance the token stream one step, returning the next token as a name.
+    ///
+    /// This function returns an error if the current line ends before the name.
+    fn next_name(&mut self) -> Result<Option<&'a str>, ParseError> {
+        match self.peek() {
+            Some("\n") => self.error(
+                ErrorKind::ErrorParsingMaterial,
+                "Expected a name but reached the end of the line.".to_owned(),
+            ),
+            _ => Ok(self.next()),
+        }
+    }
+
     /// Advance the token stream if the next token in the stream matches the
     /// input tag.
     ///
@@ -433,7 +446,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ka")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -450,7 +463,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Kd")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -467,7 +480,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ks")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -484,7 +497,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ke")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -505,7 +518,7 @@ impl<'a> Parser<'a> {
             _ => return Ok(None),
         }
 
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -522,7 +535,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("disp")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -539,7 +552,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_d")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -556,7 +569,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("decal")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -573,7 +586,7 @@ impl<'a> Parser<'a> {
         }
 
         self.expect_tag("map_Ns")?;
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -615,7 +628,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        match self.next() {
+        match self.next_name()? {
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
-- 
2.43.0


From 5546bb59fbb226ac5104356a98f4f3d6d195284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:55 +0000
Subject: [PATCH 7/9] fix: report a missing value on the line that lacks it

A statement with too few values consumed the newline that ended it before the
error was made, so the error named the following line.
---
 src/mtl.rs | 6 ++++++
 src/obj.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mtl.rs b/src/mtl.rs
index a82c732..beeb7e2 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -319,6 +319,12 @@ impl<'a> Parser<'a> {
     ///
     /// This function generates an error is it runs out of input.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
+        // Leave a newline in the stream, so that an error about what is missing
+        // is reported on the line that lacks it.
+        if let Some("\n") = self.peek() {
+            return Ok("\n");
+        }
+
         match self.next() {
             Some(st) => Ok(st),
             None => self.error(
diff --git a/src/obj.rs b/src/obj.rs
index e5718c7..109ca58 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -736,6 +736,12 @@ impl<'a> Parser<'a> {
     ///
     /// This function generates an error is it runs out of input.
     fn next_string(&mut self) -> Result<&'a str, ParseError> {
+        // Leave a newline in the stream, so that an error about what is missing
+        // is reported on the line that lacks it.
+        if let Some("\n") = self.peek() {
+            return Ok("\n");
+        }
+
         match self.next() {
             Some(st) => Ok(st),
             None => self.error(
-- 
2.43.0


From d6db78cb3c0c57cc844bac23cac970d0d190547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 8/9] fix: close the displayed object with one brace

---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index 109ca58..81ab17e 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -550,7 +550,7 @@ impl DisplayObjectCompositor {
         string += &self.compose_set(&object.group_set, "group");
         string += &self.compose_set(&object.smoothing_group_set, "smoothing group");
         string += &self.compose_set(&object.element_set, "element");
-        string += "}}\n";
+        string += "}\n";
 
         string
     }
-- 
2.43.0


From e503bd222b40db1d0d999818dca468e8764685d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:39 +0000
Subject: [PATCH 9/9] fix: put elements after a nameless g statement in the
 default group

They belonged to no group at all when an earlier g statement had named one.
---
 src/obj.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 81ab17e..674d0bc 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1423,10 +1423,9 @@ impl<'a> Parser<'a> {
                     *max_normal_index += 1;
                 }
                 Some("p") | Some("l") | Some("f") => {
-                    if groups.is_empty() {
+                    if min_group_index == max_group_index {
                         groups.push(Default::default());
-                        min_group_index = 0;
-                        max_group_index = 1;
+                        max_group_index += 1;
                     }
 
                     if smoothing_groups.is_empty() {
-- 
2.43.0

