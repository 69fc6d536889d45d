From 96d5e8c883bd32aa5198c5464fa48237f6d76baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 01/10] fix: locate the variation store of a glyph definition
 by its own offset

---
 src/tables/glyph_definition/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_definition/mod.rs b/src/tables/glyph_definition/mod.rs
index ae7c79d..1a9db68 100644
--- a/src/tables/glyph_definition/mod.rs
+++ b/src/tables/glyph_definition/mod.rs
@@ -74,7 +74,7 @@ table! {
             jump_take_maybe!(
                 tape,
                 position,
-                field!(this.header => mark_offset(0), Header::{Version13})
+                field!(this.header => variation_offset(0), Header::{Version13})
             )
         },
     }
-- 
2.43.0


From 24a247d62e1c51d9e95ccd3493fe93fb5506ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 02/10] fix: distinguish ligature carets by their 16-bit format

---
 src/tables/glyph_definition/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tables/glyph_definition/element.rs b/src/tables/glyph_definition/element.rs
index 4eb5990..d69fae5 100644
--- a/src/tables/glyph_definition/element.rs
+++ b/src/tables/glyph_definition/element.rs
@@ -132,11 +132,11 @@ table! {
 
 impl crate::value::Read for Caret {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
-        Ok(match tape.peek::<u32>()? {
+        Ok(match tape.peek::<u16>()? {
             1 => Self::Format1(tape.take()?),
             2 => Self::Format2(tape.take()?),
             3 => Self::Format3(tape.take()?),
-            _ => raise!("found an unknown format of the caret-value table"),
+            value => raise!("found an unknown format of the caret-value table ({value})"),
         })
     }
 }
-- 
2.43.0


From b11c42793610bc6986a77e9cf1810dc369fe571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 03/10] fix: do not read past the last word of a device
 correction

---
 src/layout/correction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/layout/correction.rs b/src/layout/correction.rs
index 944959e..b6d8e8c 100644
--- a/src/layout/correction.rs
+++ b/src/layout/correction.rs
@@ -61,7 +61,7 @@ impl crate::value::Read for Device {
         }
         let count = (end_size - start_size) as usize + 1;
         let bit_count = (1 << format as usize) * count;
-        let short_count = (bit_count + 16 - bit_count % 16) >> 4;
+        let short_count = (bit_count + 15) >> 4;
         let deltas = tape.take_given(short_count)?;
         Ok(Device {
             start_size,
-- 
2.43.0


From 88a78035eee665fc7f6bfe65c494e8e9bee49204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 04/10] fix: treat the PostScript name of a named instance as
 optional

---
 src/tables/font_variations/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index 8a2ae59..b8c10fe 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -47,10 +47,10 @@ table! {
     @define
     /// An instance record of a font-variations table.
     pub InstanceRecord { // InstanceRecord
-        subfamily_name_id  (NameID       ), // subfamilyNameID
-        flags              (InstanceFlags), // flags
-        coordinates        (Vec<q32>     ), // coordinates
-        postscript_name_id (NameID       ), // postScriptNameID
+        subfamily_name_id  (NameID        ), // subfamilyNameID
+        flags              (InstanceFlags ), // flags
+        coordinates        (Vec<q32>      ), // coordinates
+        postscript_name_id (Option<NameID>), // postScriptNameID
     }
 }
 
@@ -84,7 +84,7 @@ impl crate::value::Read for FontVariations {
         let instance_records = (0..header.instance_count as u64)
             .map(|i| {
                 tape.jump(position + i * header.instance_size as u64)?;
-                tape.take_given(header.axis_count)
+                tape.take_given((header.axis_count, header.instance_size))
             })
             .collect::<Result<Vec<_>>>()?;
         Ok(Self {
@@ -96,14 +96,21 @@ impl crate::value::Read for FontVariations {
 }
 
 impl crate::walue::Read<'static> for InstanceRecord {
-    type Parameter = u16;
+    type Parameter = (u16, u16);
 
-    fn read<T: crate::tape::Read>(tape: &mut T, axis_count: Self::Parameter) -> Result<Self> {
+    fn read<T: crate::tape::Read>(
+        tape: &mut T,
+        (axis_count, size): Self::Parameter,
+    ) -> Result<Self> {
         Ok(Self {
             subfamily_name_id: tape.take()?,
             flags: tape.take()?,
             coordinates: tape.take_given(axis_count as usize)?,
-            postscript_name_id: tape.take()?,
+            postscript_name_id: if size as usize >= 4 + 4 * axis_count as usize + 2 {
+                Some(tape.take()?)
+            } else {
+                None
+            },
         })
     }
 }
-- 
2.43.0


From 03159a284b351cbc7fa02691fdcd3990658a9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 05/10] fix: do not overflow when sizing the deltas of an item
 variation record

---
 src/variations/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variations/item.rs b/src/variations/item.rs
index 452679d..99a5203 100644
--- a/src/variations/item.rs
+++ b/src/variations/item.rs
@@ -30,8 +30,8 @@ table! {
         },
 
         deltas (Vec<u8>) |this, tape| { // deltaSets
-            let per_item_count = this.short_delta_count + this.region_count;
-            tape.take_given(this.item_count as usize * per_item_count as usize)
+            let per_item_count = this.short_delta_count as usize + this.region_count as usize;
+            tape.take_given(this.item_count as usize * per_item_count)
         },
     }
 }
-- 
2.43.0


From b83e97f7ca5baeb3180be902df5983d1315eb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 06/10] fix: reject palettes that reach beyond the colors

---
 src/tables/color_palettes.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/tables/color_palettes.rs b/src/tables/color_palettes.rs
index 481456e..31244c0 100644
--- a/src/tables/color_palettes.rs
+++ b/src/tables/color_palettes.rs
@@ -91,10 +91,26 @@ impl crate::value::Read for ColorPalettes {
     fn read<T: crate::tape::Read>(tape: &mut T) -> Result<Self> {
         let position = tape.position()?;
         let header = tape.take()?;
-        let (offset, count) = match header {
-            Header::Version0(ref header) => (header.color_offset, header.color_count as usize),
-            Header::Version1(ref header) => (header.color_offset, header.color_count as usize),
+        let (offset, count, entry_count, color_indices) = match header {
+            Header::Version0(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
+            Header::Version1(ref header) => (
+                header.color_offset,
+                header.color_count as usize,
+                header.entry_count as usize,
+                &header.color_indices,
+            ),
         };
+        if color_indices
+            .iter()
+            .any(|index| *index as usize + entry_count > count)
+        {
+            raise!("found a malformed color palette");
+        }
         let colors = jump_take_given!(@unwrap tape, position, offset, count);
         Ok(Self { header, colors })
     }
-- 
2.43.0


From 1853685a78c97a6d3448ce0cdf5dae65743958e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 07/10] fix: accept null rule sets in contextual lookups in
 format 1

---
 src/layout/context.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/layout/context.rs b/src/layout/context.rs
index 9cd7279..b237f58 100644
--- a/src/layout/context.rs
+++ b/src/layout/context.rs
@@ -33,7 +33,11 @@ table! {
         },
 
         records (Vec<Records>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets).map(
+                |records: Vec<Option<_>>| {
+                    records.into_iter().map(Option::unwrap_or_default).collect()
+                },
+            )
         },
     }
 }
@@ -115,7 +119,11 @@ table! {
         },
 
         records (Vec<ChainedRecords>) |this, tape, position| {
-            jump_take!(tape, position, this.record_count, this.record_offsets)
+            jump_take_maybe!(tape, position, this.record_count, this.record_offsets).map(
+                |records: Vec<Option<_>>| {
+                    records.into_iter().map(Option::unwrap_or_default).collect()
+                },
+            )
         },
     }
 }
-- 
2.43.0


From b7678d5fb4ab2a891c13c7737f4c7263f1ab6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 08/10] fix: tell Tulu and Tumbuka apart

---
 src/layout/language.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layout/language.rs b/src/layout/language.rs
index 6ca167f..037e5ed 100644
--- a/src/layout/language.rs
+++ b/src/layout/language.rs
@@ -625,8 +625,8 @@ implement! {
     b"TRK " => "Turkish" => Turkish => "tur",
     b"TSG " => "Tsonga" => Tsonga => "tso",
     b"TUA " => "Turoyo Aramaic" => TuroyoAramaic => "tru",
-    b"TUM " => "Tulu" => Tulu => "tum",
-    b"TUL " => "Tumbuka" => Tumbuka => "tcy",
+    b"TUL " => "Tulu" => Tulu => "tcy",
+    b"TUM " => "Tumbuka" => Tumbuka => "tum",
     b"TUV " => "Tuvin" => Tuvin => "tyv",
     b"TVL " => "Tuvalu" => Tuvalu => "tvl",
     b"TWI " => "Twi" => Twi => "aka",
-- 
2.43.0


From 7d4370d23bca8287cd1edbdd2c1ec1a1d761f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 09/10] fix: check the format of the reversed chained
 contextual substitution

---
 src/tables/glyph_substitution/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables/glyph_substitution/mod.rs b/src/tables/glyph_substitution/mod.rs
index 77c06ff..45f4acd 100644
--- a/src/tables/glyph_substitution/mod.rs
+++ b/src/tables/glyph_substitution/mod.rs
@@ -147,7 +147,7 @@ table! {
     @position
     /// A reversed chained contextual substitution.
     pub ReverseChainedContextualSubstibution { // ReverseChainSingleSubstFormat1
-        format               (u16), // substFormat
+        format               (u16) = { 1 }, // substFormat
         coverage_offset      (u16), // coverageOffset
         backward_glyph_count (u16), // backtrackGlyphCount
 
-- 
2.43.0


From 07a932fe0dd1bda848141d2a8a445c1ae0c3f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 10/10] fix: check the version of the font-variations table

---
 src/tables/font_variations/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tables/font_variations/mod.rs b/src/tables/font_variations/mod.rs
index b8c10fe..04b5425 100644
--- a/src/tables/font_variations/mod.rs
+++ b/src/tables/font_variations/mod.rs
@@ -19,8 +19,8 @@ table! {
     /// The header of a font-variations table.
     #[derive(Copy)]
     pub Header {
-        major_version  (u16), // majorVersion
-        minor_version  (u16), // minorVersion
+        major_version  (u16) = { 1 }, // majorVersion
+        minor_version  (u16) = { 0 }, // minorVersion
         axis_offset    (u16), // axesArrayOffset
         reserved       (u16) = { 2 }, // reserved
         axis_count     (u16), // axisCount
-- 
2.43.0

