From f5d7df681403ec312fbd39bb04f03aaba40370fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 1/5] fix: report a rigid body whose velocities are cut off as
 truncated

The question mark applied to the freshly built Some, so a missing linear
or angular velocity decoded as None instead of as not enough data.
---
 src/network/attributes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index 8230eae..f5cd96f 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -1267,8 +1267,8 @@ impl AttributeDecoder {
         let mut angular_velocity = None;
 
         if !sleeping {
-            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
-            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version()))?;
+            linear_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
+            angular_velocity = Some(Vector3f::decode(bits, self.version.net_version())?);
         }
 
         Some(RigidBody {
-- 
2.43.0


From e971c7da27c2e0fdcbb8f8b721ae84ae2604a2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 2/5] fix: limit how deep header properties may nest

A header of a few tens of kilobytes made of nested arrays or structs
overflowed the stack, which aborts the process instead of returning a
parse error.
---
 src/header.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index c92479f..846d084 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -78,9 +78,21 @@ enum ParserMode {
     Quirks,
 }
 
+/// How deep arrays and structs may nest before the header is rejected. Without a limit, a small
+/// crafted header can exhaust the stack.
+const MAX_PROPERTY_DEPTH: usize = 64;
+
 fn parse_rdict(
     rlp: &mut CoreParser,
     mode: ParserMode,
+) -> Result<Vec<(String, HeaderProp)>, ParseError> {
+    parse_nested_rdict(rlp, mode, 0)
+}
+
+fn parse_nested_rdict(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
 ) -> Result<Vec<(String, HeaderProp)>, ParseError> {
     // The return type of this function is a key value vector because since there is no format
     // specification, we can't rule out duplicate keys.
@@ -97,6 +109,9 @@ fn parse_rdict(
         let _size = rlp.take_u32("property size")? as usize;
         let _ignored = rlp.take_data(4)?;
         let val = match kind {
+            "ArrayProperty" | "StructProperty" if depth >= MAX_PROPERTY_DEPTH => {
+                Err(ParseError::UnexpectedProperty(String::from(kind)))
+            }
             "BoolProperty" => match mode {
                 // The size SHOULD be zero, but we're ignoring it.
                 ParserMode::Standard => rlp.take_data(1).map(bool_prop),
@@ -121,7 +136,7 @@ fn parse_rdict(
                     .parse_text()
                     .map(|kind| HeaderProp::Byte { kind, value: None }),
             },
-            "ArrayProperty" => array_property(rlp, mode),
+            "ArrayProperty" => array_property(rlp, mode, depth),
             "FloatProperty" => rlp
                 .take_bytes::<4>()
                 .map(f32::from_le_bytes)
@@ -138,7 +153,7 @@ fn parse_rdict(
             "StrProperty" => rlp.parse_text().map(HeaderProp::Str),
             "StructProperty" => {
                 let name = rlp.parse_str()?;
-                let fields = parse_rdict(rlp, mode)?;
+                let fields = parse_nested_rdict(rlp, mode, depth + 1)?;
                 Ok(HeaderProp::Struct {
                     name: String::from(name),
                     fields,
@@ -157,9 +172,13 @@ fn bool_prop(data: &[u8]) -> HeaderProp {
     HeaderProp::Bool(data[0] == 1)
 }
 
-fn array_property(rlp: &mut CoreParser, mode: ParserMode) -> Result<HeaderProp, ParseError> {
+fn array_property(
+    rlp: &mut CoreParser,
+    mode: ParserMode,
+    depth: usize,
+) -> Result<HeaderProp, ParseError> {
     let size = rlp.take_i32("array property size")?;
-    let arr = CoreParser::repeat(size as usize, || parse_rdict(rlp, mode))?;
+    let arr = CoreParser::repeat(size as usize, || parse_nested_rdict(rlp, mode, depth + 1))?;
     Ok(HeaderProp::Array(arr))
 }
 
-- 
2.43.0


From 12ee5a4c0796f9549d904a5c5327b3242bd54034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 3/5] fix: do not treat object 0 as a product class the replay
 does not list

Product classes missing from the object list fell back to object id 0, so
product attributes of the first object decoded as a user color and shifted
everything behind them.
---
 src/network/attributes.rs | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/network/attributes.rs b/src/network/attributes.rs
index f5cd96f..ba08286 100644
--- a/src/network/attributes.rs
+++ b/src/network/attributes.rs
@@ -447,30 +447,20 @@ pub struct LogoData {
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub(crate) struct ProductValueDecoder {
     version: VersionTriplet,
-    color_ind: ObjectId,
-    painted_ind: ObjectId,
-    special_edition_ind: ObjectId,
-    team_edition_ind: ObjectId,
-    title_ind: ObjectId,
+    color_ind: Option<ObjectId>,
+    painted_ind: Option<ObjectId>,
+    special_edition_ind: Option<ObjectId>,
+    team_edition_ind: Option<ObjectId>,
+    title_ind: Option<ObjectId>,
 }
 
 impl ProductValueDecoder {
     pub fn create(version: VersionTriplet, object_index: &ObjectIndex) -> Self {
-        let color_ind = object_index
-            .by_name("TAGame.ProductAttribute_UserColor_TA")
-            .unwrap_or_default();
-        let painted_ind = object_index
-            .by_name("TAGame.ProductAttribute_Painted_TA")
-            .unwrap_or_default();
-        let title_ind = object_index
-            .by_name("TAGame.ProductAttribute_TitleID_TA")
-            .unwrap_or_default();
-        let special_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_SpecialEdition_TA")
-            .unwrap_or_default();
-        let team_edition_ind = object_index
-            .by_name("TAGame.ProductAttribute_TeamEdition_TA")
-            .unwrap_or_default();
+        let color_ind = object_index.by_name("TAGame.ProductAttribute_UserColor_TA");
+        let painted_ind = object_index.by_name("TAGame.ProductAttribute_Painted_TA");
+        let title_ind = object_index.by_name("TAGame.ProductAttribute_TitleID_TA");
+        let special_edition_ind = object_index.by_name("TAGame.ProductAttribute_SpecialEdition_TA");
+        let team_edition_ind = object_index.by_name("TAGame.ProductAttribute_TeamEdition_TA");
 
         ProductValueDecoder {
             version,
@@ -488,6 +478,8 @@ impl ProductValueDecoder {
         obj_ind: ObjectId,
         buf: &mut [u8],
     ) -> Option<ProductValue> {
+        // A product class that the replay does not list must not match any object
+        let obj_ind = Some(obj_ind);
         if obj_ind == self.color_ind {
             if self.version >= VersionTriplet(868, 23, 8) {
                 bits.read_u32().map(ProductValue::NewColor)
-- 
2.43.0


From aa263519dba14d122965ef24ccd83ade15bf1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 4/5] fix: forget deleted actors whose id is below the array
 segment

Deleting an actor with an id under 200 was skipped, so an update to the
deleted actor decoded against its old class, while the same update with a
larger id was reported as a missing actor.
---
 src/network/frame_decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/frame_decoder.rs b/src/network/frame_decoder.rs
index 6f2ff15..e8b4c4e 100644
--- a/src/network/frame_decoder.rs
+++ b/src/network/frame_decoder.rs
@@ -45,8 +45,10 @@ impl<T> RawSegmentedArray<T> {
     }
 
     pub(crate) fn delete(&mut self, key: usize) {
-        match self.array.get(key) {
-            Some(_) => {} // skip removing
+        match self.array.get_mut(key) {
+            Some(entry) => {
+                *entry = None;
+            }
             None => {
                 self.map.remove(&key);
             }
-- 
2.43.0


From e0dfd809ce8ee9f52ead8cb8e4f961d143e76af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:03 +0000
Subject: [PATCH 5/5] fix: keep byte offsets from overflowing behind 2 GiB of
 input

---
 src/core_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_parser.rs b/src/core_parser.rs
index d033734..9eebbbc 100644
--- a/src/core_parser.rs
+++ b/src/core_parser.rs
@@ -34,7 +34,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col = self.col.saturating_add(N as i32);
         self.data = tail;
         Ok(*result)
     }
@@ -47,7 +47,7 @@ impl<'a> CoreParser<'a> {
                 size as i32,
                 self.data.len() as i32,
             ))?;
-        self.col += size as i32;
+        self.col = self.col.saturating_add(size as i32);
         self.data = tail;
         Ok(head)
     }
@@ -61,7 +61,7 @@ impl<'a> CoreParser<'a> {
                     N as i32,
                     self.data.len() as i32,
                 ))?;
-        self.col += N as i32;
+        self.col = self.col.saturating_add(N as i32);
         self.data = tail;
         Ok(*head)
     }
-- 
2.43.0

