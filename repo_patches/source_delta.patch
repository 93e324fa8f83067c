From 25f62c73a4ed9b4d78bf60b558ec4cf3ab5ae542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 01/13] fix: Keep tokens after an empty name separate in
 compact mode

---
 src/object.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/object.rs b/src/object.rs
index a16146f..0c20361 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -379,9 +379,13 @@ fn is_regular_character(byte: u8) -> bool {
     )
 }
 
+/// Whether no padding is needed after a token that ends with this byte.
+///
+/// This excludes the solidus: When it is the last byte, the token is an empty
+/// name and whatever directly follows would become a part of it.
 #[inline]
 pub(crate) fn is_delimiter_character(byte: u8) -> bool {
-    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
+    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'%')
 }
 
 /// The null object.
-- 
2.43.0


From 5260c27b346e921b568ef8d114f0bbf33801aa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 02/13] fix: Don't overflow when registering i32::MIN in limits

---
 src/buf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.rs b/src/buf.rs
index f6f69f0..b389ba3 100644
--- a/src/buf.rs
+++ b/src/buf.rs
@@ -192,7 +192,7 @@ impl Limits {
     }
 
     pub(crate) fn register_int(&mut self, val: i32) {
-        self.int = self.int.max(val.abs());
+        self.int = self.int.max(val.saturating_abs());
     }
 
     pub(crate) fn register_real(&mut self, val: f32) {
-- 
2.43.0


From 3040213625ee4a832fccbc79869a2107f0a55b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 03/13] fix: Don't truncate free list links in cross-reference
 streams

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index ffa495e..deb5d56 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -379,7 +379,11 @@ impl Pdf {
         // Include the reference of the xref stream in the offsets as well!
         let xref_offset = buf.len();
         offsets.push((xref_id, xref_offset));
-        let field_width = determine_field_width(xref_offset);
+
+        // The second field holds offsets for used entries, but the next free
+        // object number for free ones, so it must be wide enough for both.
+        let max_id = offsets.iter().map(|(id, _)| id.get()).max().unwrap_or(0);
+        let field_width = determine_field_width(xref_offset.max(max_id as usize));
 
         let mut writer = XRefStreamWriter::new(field_width);
         let xref_len = write_offsets(offsets, &mut writer);
-- 
2.43.0


From 612c9be76f4480a7655196149f8081c0ceedb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 04/13] fix: Register the encoded length of Unicode text
 strings in limits

---
 src/object.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/object.rs b/src/object.rs
index 0c20361..325721e 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -167,12 +167,12 @@ impl Sealed for TextStr<'_> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        buf.limits.register_str_len(self.0.len());
-
         // ASCII and PDFDocEncoding match for 32 up to 126.
         if self.0.bytes().all(|b| matches!(b, 32..=126)) {
             Str(self.0.as_bytes()).write(buf);
         } else {
+            // The byte order mark plus two bytes per UTF-16 code unit.
+            buf.limits.register_str_len(2 + 2 * self.0.encode_utf16().count());
             buf.reserve(6 + 4 * self.0.len());
             write_utf16be_text_str_header(buf);
             for value in self.0.encode_utf16() {
@@ -256,13 +256,15 @@ impl<'a, 'b> Sealed for TextStrWithLang<'a, 'b> {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
-        let mut len = 0;
+        // The byte order mark.
+        let mut len = 2;
         let mut buf_len = 6;
 
         for (lang, text) in self.0 {
             // Each language tag is enclosed in two escape characters, plus the
             // two-letter language code and optional two-letter region code.
-            len += text.len() + lang.len() + 2;
+            // Everything is encoded in UTF-16.
+            len += 2 * (text.encode_utf16().count() + lang.len() + 2);
             // Each hexadecimal character is four bytes long, plus four bytes
             // for the escape sequence. The language tag is encoded in
             // hexadecimal, so each byte becomes two hexadecimal characters.
-- 
2.43.0


From 9bd510ad536b08cec8459f499e93e1c7f8784fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 05/13] fix: Register the length of dates in limits

---
 src/object.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/object.rs b/src/object.rs
index 325721e..49d77b6 100644
--- a/src/object.rs
+++ b/src/object.rs
@@ -610,6 +610,7 @@ impl Sealed for Date {
     const STARTS_WITH_DELIMITER: bool = true;
 
     fn write(self, buf: &mut Buf) {
+        let start = buf.len();
         buf.extend(b"(D:");
 
         (|| {
@@ -634,6 +635,10 @@ impl Sealed for Date {
         })();
 
         buf.push(b')');
+
+        // The length without the parentheses.
+        let len = buf.len() - start - 2;
+        buf.limits.register_str_len(len);
     }
 }
 
-- 
2.43.0


From 10228761992b6d3543cad0f1012c0394092b923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 06/13] fix: Map the ruby punctuation role to itself in PDF 2.0

---
 src/structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure.rs b/src/structure.rs
index 535eb44..85992fc 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -973,7 +973,7 @@ impl StructRole {
             Self::Warichu => Some(StructRole2::Warichu),
             Self::RB => Some(StructRole2::RB),
             Self::RT => Some(StructRole2::RT),
-            Self::RP => Some(StructRole2::WP),
+            Self::RP => Some(StructRole2::RP),
             Self::WT => Some(StructRole2::WT),
             Self::WP => Some(StructRole2::WP),
             Self::Figure => Some(StructRole2::Figure),
-- 
2.43.0


From 72b5b4fc109148674d261ca1cf9de1a571703adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 07/13] fix: Write the /PC key for the page close action of
 annotations

---
 src/actions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions.rs b/src/actions.rs
index 470e26e..769be02 100644
--- a/src/actions.rs
+++ b/src/actions.rs
@@ -339,7 +339,7 @@ impl AdditionalActions<'_> {
     /// shall be performed when the page containing the annotation is closed.
     /// Only permissible for annotations. PDF 1.5+.
     pub fn annot_page_close(&mut self) -> Action<'_> {
-        self.insert(Name(b"PV")).start()
+        self.insert(Name(b"PC")).start()
     }
 
     /// Start writing the `/PV` dictionary. This sets the action action that
-- 
2.43.0


From 87f6c64fc2de4d30bdf2012e74c909b8d9ceb397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 08/13] fix: Write the /B key for opaque fly transitions

---
 src/transitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transitions.rs b/src/transitions.rs
index 83d3b65..885eb08 100644
--- a/src/transitions.rs
+++ b/src/transitions.rs
@@ -57,7 +57,7 @@ impl Transition<'_> {
 
     /// Write the `/B` attribute for the `Fly` transition. PDF 1.5+.
     pub fn opaque(&mut self, opaque: f32) -> &mut Self {
-        self.pair(Name(b"F"), opaque);
+        self.pair(Name(b"B"), opaque);
         self
     }
 }
-- 
2.43.0


From a2b05b76e4583962607420831acae684efbd06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 09/13] fix: Write CMYK widget colors in the order PDF expects

---
 src/annotations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/annotations.rs b/src/annotations.rs
index cfc1d0a..d50f1b1 100644
--- a/src/annotations.rs
+++ b/src/annotations.rs
@@ -431,7 +431,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BC` attribute using an RGB color. This sets the widget
     /// annotation's border color.
     pub fn border_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BC")).array().items([c, y, m, k]);
+        self.insert(Name(b"BC")).array().items([c, m, y, k]);
         self
     }
 
@@ -459,7 +459,7 @@ impl AppearanceCharacteristics<'_> {
     /// Write the `/BG` attribute using an RGB color. This sets the widget
     /// annotation's backround color.
     pub fn background_color_cymk(&mut self, c: f32, y: f32, m: f32, k: f32) -> &mut Self {
-        self.insert(Name(b"BG")).array().items([c, y, m, k]);
+        self.insert(Name(b"BG")).array().items([c, m, y, k]);
         self
     }
 
-- 
2.43.0


From 8b67e55620f4f25a1f8f5e3543639c4981c30180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 10/13] fix: Write the /AppearanceFilter key in signature seed
 values

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index 6726fc7..e3357a4 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -726,7 +726,7 @@ impl SignatureSeedValue<'_> {
     /// the appearance must be available and used to sign the document.
     /// PDF 2.0+.
     pub fn appearance_filter(&mut self, signature_appearance: TextStr<'_>) -> &mut Self {
-        self.pair(Name(b"LockDocument"), signature_appearance);
+        self.pair(Name(b"AppearanceFilter"), signature_appearance);
         self
     }
 }
-- 
2.43.0


From 5449bd64cdbe9c16fbb0fca6d1cb6682bba91797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 11/13] fix: Write the /SignaturePolicyCommitmentType key

---
 src/forms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/forms.rs b/src/forms.rs
index e3357a4..64b876a 100644
--- a/src/forms.rs
+++ b/src/forms.rs
@@ -998,7 +998,7 @@ impl CertificateSeedValue<'_> {
         &mut self,
         commitment_types: impl IntoIterator<Item = Str<'b>>,
     ) -> &mut Self {
-        self.insert(Name(b"SignaturePolicyHashAlgorithm"))
+        self.insert(Name(b"SignaturePolicyCommitmentType"))
             .array()
             .items(commitment_types);
         self
-- 
2.43.0


From 25c74dfc39e10aed8496ea5c386ec4c048a522d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 12/13] fix: Use the standard structure namespace names

---
 src/structure.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/structure.rs b/src/structure.rs
index 85992fc..00d2394 100644
--- a/src/structure.rs
+++ b/src/structure.rs
@@ -764,7 +764,7 @@ deref!('a, ClassMap<'a> => Dict<'a>, dict);
 /// Role the structure element fulfills in the document for PDF 1.7 and below.
 ///
 /// These are the predefined standard roles in PDF 1.7 and below, matching the
-/// `https://www.iso.org/pdf/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf/ssn` namespace. The writer may write their own
 /// roles and then provide a mapping with [`StructTreeRoot::role_map`], or, if
 /// writing PDF 2.0, with [`Namespace::role_map_ns`]. PDF 1.4+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
@@ -1089,7 +1089,7 @@ impl TryFrom<StructRole> for StructRole2 {
 /// PDF 2.0 roles the structure element fulfills in the document.
 ///
 /// These are the predefined standard roles in PDF 2.0, matching the
-/// `https://www.iso.org/pdf2/ssn` namespace. The writer may write their own
+/// `http://iso.org/pdf2/ssn` namespace. The writer may write their own
 /// types and then provide a mapping using [`Namespace::role_map_ns`]. PDF 2.0+.
 #[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
 pub enum StructRole2 {
@@ -1546,18 +1546,18 @@ impl Namespace<'_> {
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 2.0_.
     pub fn pdf_2_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf2/ssn"));
+        self.ns(TextStr("http://iso.org/pdf2/ssn"));
     }
 
     /// Write the namespace dictionary for the _standard structure namespace for
     /// PDF 1.7_.
     pub fn pdf_1_7_ns(mut self) {
-        self.ns(TextStr("https://www.iso.org/pdf/ssn"));
+        self.ns(TextStr("http://iso.org/pdf/ssn"));
     }
 
     /// Write the namespace dictionary for MathML 3.0.
     pub fn mathml_3_0_ns(mut self) {
-        self.ns(TextStr("https://www.w3.org/1998/Math/MathML"));
+        self.ns(TextStr("http://www.w3.org/1998/Math/MathML"));
     }
 }
 
-- 
2.43.0


From f2fb1a9936f06de6da1b79e0c59789d5ae96358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:06 +0000
Subject: [PATCH 13/13] fix: Keep line breaks in names from ending CMap header
 comments

---
 src/font.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/font.rs b/src/font.rs
index 4adc32f..2b213ae 100644
--- a/src/font.rs
+++ b/src/font.rs
@@ -879,14 +879,14 @@ where
 
         // Dynamic header.
         buf.extend(b"%%BeginResource: CMap ");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b'\n');
         buf.extend(b"%%Title: (");
-        buf.extend(name.0);
+        push_comment(&mut buf, name.0);
         buf.push(b' ');
-        buf.extend(info.registry.0);
+        push_comment(&mut buf, info.registry.0);
         buf.push(b' ');
-        buf.extend(info.ordering.0);
+        push_comment(&mut buf, info.ordering.0);
         buf.push(b' ');
         buf.push_int(info.supplement);
         buf.extend(b")\n");
@@ -993,6 +993,14 @@ where
     }
 }
 
+/// Write bytes into a comment. A line break would end the comment and turn the
+/// rest into code, so it is replaced by a space.
+fn push_comment(buf: &mut Buf, bytes: &[u8]) {
+    for &byte in bytes {
+        buf.push(if matches!(byte, b'\n' | b'\r' | b'\x0c') { b' ' } else { byte });
+    }
+}
+
 /// Type3 fonts require (in Acrobat at least) IDs in CMaps to be encoded with
 /// one byte only, whereas other font types use two bytes.
 ///
-- 
2.43.0

