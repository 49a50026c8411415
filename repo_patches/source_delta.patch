From c7afcf00eba1bc2cf02bfd06a5ea896dd5c5f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 01/34] fix: terminate quoted strings at the end of the
 document

An unterminated quoted string looped forever, and an escaped backslash in
front of the closing mark was taken for an escaped mark.
---
 src/parser/base/grammar.rs | 7 +++++++
 src/parser/mod.rs          | 7 ++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..298cb59 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -116,8 +116,15 @@ impl Parser<'_> {
                     p.ws(TakeOpt::More(0))?;
                 } else if p.sym(b'\\').is_ok() {
                     v.push('\\');
+                    p.forward();
+                    // An escaped backslash does not escape the quotation mark
+                    if sym == b'"' && p.sym(b'\\').is_ok() {
+                        v.push('\\');
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string terminator");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..44a2cff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -280,9 +280,10 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
-            R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if self.food().starts_with(b"'") {
+            R::new_rc(Yaml::Str(self.string_quoted(b'\'', b"''")?))
+        } else if self.food().starts_with(b"\"") {
+            let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From 9ecffb89675da67f0a7cbe5f063a0ae11969f833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 02/34] fix: report undefined tag handles instead of panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 298cb59..7089904 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -302,7 +302,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 44a2cff..cdc9275 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -17,6 +17,7 @@
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
+//! + tag handle: Handle of the tag is not defined by a tag directive.
 //!
 //! ## Structure
 //!
@@ -234,7 +235,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From b22f7a862eef02935145c832302296c74199b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 03/34] fix: always consume input while matching plain strings

With an indent of zero (e.g. a sequence on the level of its parent, or the
dumper's check) the loop never moved on.
---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7089904..b056269 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -163,7 +163,8 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
+                } else if p.count(|p| p.ind(level)).unwrap_or_default() == 0 {
+                    // Always move on, the indent might be zero
                     if let Ok(t) = p.gap(true) {
                         if t == 1 {
                             v.push(' ');
-- 
2.43.0


From 1d5cb19b776f074a2ef01be31da9eba1ef8590ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 04/34] fix: reject documents nested too deep instead of
 overflowing the stack

---
 src/parser/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cdc9275..18aec43 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -17,6 +17,7 @@
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
+//! + nesting level: The structures are nested too deep.
 //! + tag handle: Handle of the tag is not defined by a tag directive.
 //!
 //! ## Structure
@@ -72,6 +73,9 @@ pub(crate) use tag_prefix;
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
 /// The default prefix of the YAML sub tag.
 pub const DEFAULT_PREFIX: &str = tag_prefix!();
+/// The maximum nesting level, deeper documents are rejected instead of
+/// exhausting the stack.
+const MAX_LEVEL: usize = 128;
 
 /// A parser with YAML grammar, support UTF-8 characters.
 ///
@@ -208,6 +212,9 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
+        if level > MAX_LEVEL {
+            return self.err("nesting level");
+        }
         self.scalar_node(|p| {
             if let Ok(s) = p.string_literal(level) {
                 Ok(R::new_rc(Yaml::Str(s)))
-- 
2.43.0


From 5da932e0c3ac5e50eb247ac5ba2a5f6c5961e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 05/34] fix: show error positions relative to the attached
 document

After Parser::consume() the stream offset was used as an offset into the
rest of the document, and positions behind the document panicked.
---
 src/indicator.rs       | 5 ++++-
 src/parser/base/mod.rs | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..7c6c6a0 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -20,7 +20,10 @@ use alloc::{format, string::String};
 ///
 /// This may be what you need if you went to indicate an error on the invalid
 /// data.
-pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
+///
+/// A position behind the document indicates the end of the document.
+pub fn indicated_msg(doc: &[u8], pos: u64) -> String {
+    let mut pos = pos.min(doc.len() as u64);
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..680a112 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -99,7 +99,7 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            msg: indicated_msg(self.doc, self.pos as u64),
         })
     }
 
-- 
2.43.0


From b0035cf05e66d36ffca31a85842d983d74fff134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 06/34] fix: keep anchors of a document apart from those of a
 failed one

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 18aec43..f2f1143 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -186,12 +186,12 @@ impl<R: Repr> Loader<'_, R> {
     pub fn doc(&mut self) -> PResult<Node<R>> {
         self.context(|p| p.bound().unwrap_or_default());
         self.forward();
+        self.doc_ind = self.anchors.len();
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
         self.sym_seq(b"...").unwrap_or_default();
         self.forward();
-        self.doc_ind += 1;
         Ok(ret)
     }
 
-- 
2.43.0


From 9c192c529c62cb6eb8bef0a26eaf77927d4bb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:54 +0000
Subject: [PATCH 07/34] fix: hash numbers by value and compare integers out of
 range

Equal keys (0x10 and 16, 4. and 4, 0. and -0.) had different hashes, and
comparing integers beyond i64 panicked.
---
 src/yaml.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..66db664 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -137,13 +137,22 @@ impl<R: Repr> Hash for Yaml<R> {
                 state.write_u8(2);
                 b.hash(state)
             }
+            // Numbers hash by value, consistent with the equality
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                match to_i64(s) {
+                    Ok(n) => n.hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                match to_f64(s) {
+                    Ok(n) if n.is_nan() => f64::NAN.to_bits().hash(state),
+                    // Zeros are equal regardless of the sign
+                    Ok(n) => (n + 0.).to_bits().hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +179,15 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => match (to_i64(s1), to_i64(s2)) {
+                (Ok(n1), Ok(n2)) => n1 == n2,
+                // Out of range
+                _ => s1 == s2,
+            },
+            (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
+                (Ok(f1), Ok(f2)) => f1 == f2 || (f1.is_nan() && f2.is_nan()),
+                _ => s1 == s2,
+            },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From 44b2491cd36b4e74bb61fed9b6d4cca7140f7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 08/34] fix: check integer ranges in serde instead of wrapping
 or panicking

Integers were cast to the requested type without a check (300 became 44u8),
and integers beyond i64 panicked, u64 ones included.
---
 src/serde/de.rs       | 86 +++++++++++++++++++++++++++++++++----------
 src/serde/ser_node.rs | 19 +++++++++-
 2 files changed, 84 insertions(+), 21 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..9242150 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -41,6 +41,20 @@ macro_rules! impl_deserializer {
     };
 }
 
+macro_rules! impl_int_deserializer {
+    ($(fn $method:ident)+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => visit_int(&self, n, visitor),
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 /// Parse the document and deserialize nodes to a specific type.
 ///
 /// Since the document can be split into multiple parts,
@@ -279,8 +293,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => visit_int(&self, n, visitor),
+            Yaml::Float(n) => visitor.visit_f64(float(&self, n)?),
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -290,23 +304,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
+    impl_int_deserializer! {
+        fn deserialize_i8
+        fn deserialize_i16
+        fn deserialize_i32
+        fn deserialize_i64
+        fn deserialize_u8
+        fn deserialize_u16
+        fn deserialize_u32
+        fn deserialize_u64
+    }
+
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_int_deserializer! {
+            fn deserialize_i128
+            fn deserialize_u128
         }
     }
 
@@ -343,8 +360,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(n) => visitor.visit_f32(float(&self, n)? as f32),
+            Yaml::Int(n) => visitor.visit_f32(int_as_float(&self, n)? as f32),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +371,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(n) => visitor.visit_f64(float(&self, n)?),
+            Yaml::Int(n) => visitor.visit_f64(int_as_float(&self, n)?),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -513,13 +530,44 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+/// Visit the integer by its value, the visitor checks the range of its type.
+fn visit_int<'a, R, V>(node: &Node<R>, n: &str, visitor: V) -> Result<V::Value, SerdeError>
+where
+    R: Repr,
+    V: Visitor<'a>,
+{
+    if let Ok(n) = to_i64(n) {
+        visitor.visit_i64(n)
+    } else if let Ok(n) = n.parse() {
+        visitor.visit_u64(n)
+    } else if let Ok(n) = n.parse() {
+        visitor.visit_i128(n)
+    } else if let Ok(n) = n.parse() {
+        visitor.visit_u128(n)
+    } else {
+        Err(unexpected(node, visitor))
+    }
+}
+
+fn float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
+    to_f64(n).map_err(|_| unexpected(node, "float"))
+}
+
+fn int_as_float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
+    match to_i64(n) {
+        Ok(n) => Ok(n as f64),
+        // Out of range
+        Err(_) => float(node, n),
+    }
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => to_i64(n).map_or(Unexpected::Other(n), Unexpected::Signed),
+        Yaml::Float(n) => to_f64(n).map_or(Unexpected::Other(n), Unexpected::Float),
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..9d6389d 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -13,8 +13,23 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                if let Ok(n) = to_i64(n) {
+                    serializer.serialize_i64(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_u64(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_i128(n)
+                } else if let Ok(n) = n.parse() {
+                    serializer.serialize_u128(n)
+                } else {
+                    Err(S::Error::custom(format!("integer {n}")))
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
-- 
2.43.0


From 4bd7596ed23047ac8630a8f132dbe71ebf0d6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 09/34] fix: deserialize non-ASCII characters

---
 src/serde/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 9242150..c6eba61 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -383,7 +383,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
+                if s.chars().count() == 1 {
                     visitor.visit_char(s.chars().next().unwrap())
                 } else {
                     Err(unexpected(&self, visitor))
-- 
2.43.0


From 97b5d7580a2695eb4c48d15c4e164525b3f76e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 10/34] fix: dump scalars and empty collections so that they
 read back the same

Strings such as 'true', '12' or 'a: b' were dumped plain, whitespace at the
ends was lost, whole floats became integers, empty collections became null,
and a multiline string in the document root swallowed the next documents.
---
 src/dumper.rs | 111 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 35 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..0b90c70 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -20,6 +20,7 @@ enum Root {
     Scalar,
     Map,
     Array,
+    Key,
 }
 
 /// Dumper for nodes.
@@ -64,33 +65,32 @@ impl<'a, R: Repr> Dumper<'a, R> {
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
+            Yaml::Int(n) => doc += n,
+            Yaml::Float(n) => match n.as_str() {
+                "NaN" => doc += ".nan",
+                "inf" => doc += ".inf",
+                "-inf" => doc += "-.inf",
+                // The point marks it as a float
+                n if n.contains(['.', 'e', 'E']) => doc += n,
+                n => write!(doc, "{n}.0").unwrap(),
+            },
             Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
+                if self.level > 0 && self.root != Root::Key && is_literal(s) {
                     // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
+                    doc += if s.ends_with('\n') { "|" } else { "|-" };
+                    for s in s.lines() {
+                        doc += NL;
+                        if !s.is_empty() {
+                            doc += &ind;
+                            doc += s;
+                        }
+                    }
                 } else {
-                    // Single line string
-                    doc += s;
+                    doc += &single_line(s);
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Seq(v) => {
                 let mut buf = NL.to_string();
                 for (i, node) in v.iter().enumerate() {
@@ -112,22 +112,25 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || self.root == Root::Map {
                         buf += &ind;
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
-                    } else {
-                        buf += &s;
-                    };
+                    match k.yaml() {
+                        Yaml::Map(_) | Yaml::Seq(_) => {
+                            let s = self.part(k, Root::Map, self.level + 1);
+                            let pre_ind = "  ".repeat(self.level + 1);
+                            write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                        }
+                        _ => buf += &self.part(k, Root::Key, self.level + 1),
+                    }
                     buf += ":";
-                    buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
+                    let s = match v.yaml() {
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
                             self.part(v, Root::Map, self.level)
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        _ => self.part(v, Root::Map, self.level + 1),
                     };
+                    if !s.starts_with(NL) {
+                        buf += " ";
+                    }
+                    buf += &s;
                     buf += NL;
                 }
                 buf.truncate(buf.len() - NL.len());
@@ -139,10 +142,48 @@ impl<'a, R: Repr> Dumper<'a, R> {
     }
 }
 
+/// Check the multiline string can be read back from a literal string.
+fn is_literal(s: &str) -> bool {
+    let body = s.strip_suffix('\n').unwrap_or(s);
+    body.contains('\n')
+        && !body.starts_with(char::is_whitespace)
+        && body.lines().all(|s| s == s.trim_end())
+        && body == body.trim_end()
+        && !body.contains('\r')
+}
+
+/// Plain string if it can be read back, otherwise quoted string.
+fn single_line(s: &str) -> String {
+    let is_plain = !s.starts_with("---")
+        && !s.starts_with("...")
+        && !s.contains(['\n', '\r'])
+        && parser::Loader::<repr::RcRepr>::new(format!("{s}{NL}").as_bytes())
+            .parse()
+            .is_ok_and(|v| matches!(v[0].yaml(), Yaml::Str(v) if v == s));
+    if is_plain {
+        return s.to_string();
+    }
+    let mut doc = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => doc += "\\\"",
+            '\\' => doc += "\\\\",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            '\x08' => doc += "\\b",
+            '\x0C' => doc += "\\f",
+            c => doc.push(c),
+        }
+    }
+    doc + "\""
+}
+
 /// Dump the YAML data in to block format.
 ///
-/// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// Dumper will use plain string when the string is none-wrapped and can be
+/// read back as the same string, otherwise it use literal string or double
+/// quoted string.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
-- 
2.43.0


From b676e68bce954ee6c26717e152087b7610fc66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 11/34] fix: dump tags completely

Tags with the prefix of the core schema were dropped, and tags which only
start with an identifier were cut when read back.
---
 src/dumper.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 0b90c70..457dfdd 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -52,10 +52,10 @@ impl<'a, R: Repr> Dumper<'a, R> {
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
-                write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
+        // Core schema tags which are the same as the default ones are omitted
+        if !tag.is_empty() && tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+            let mut ident = parser::Parser::new(tag.as_bytes());
+            if ident.identifier().is_ok() && ident.food().is_empty() {
                 write!(doc, "!{tag} ").unwrap();
             } else {
                 write!(doc, "!<{tag}> ").unwrap();
-- 
2.43.0


From 8d72827b235553032499650861d56bd473d5decf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 12/34] fix: keep tag and anchor of a document root behind a
 new line

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index f2f1143..654a0f6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -185,6 +185,8 @@ impl<R: Repr> Loader<'_, R> {
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
         self.context(|p| p.bound().unwrap_or_default());
+        // The properties of the root might be behind a new line
+        self.gap(true).unwrap_or_default();
         self.forward();
         self.doc_ind = self.anchors.len();
         self.anchors.push(Anchors::new());
-- 
2.43.0


From 509cd6faee4064fa509509d5fc38bf42867b695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 13/34] fix: end plain and block scalars at document splitters
 and the document end

An empty last value or a block scalar in the document root swallowed the
splitters (and the documents) behind it, and a block scalar without a final
new line was not matched.
---
 src/parser/base/grammar.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index b056269..c1a970e 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -14,6 +14,14 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(0))
     }
 
+    /// Check the cursor is in front of a document splitter (`---` / `...`).
+    pub(crate) fn at_splitter(&self) -> bool {
+        let food = self.food();
+        (food.starts_with(b"---") || food.starts_with(b"..."))
+            && food.get(3).map_or(true, u8::is_ascii_whitespace)
+            && (self.pos == 0 || matches!(self.doc[self.pos - 1], b'\n' | b'\r'))
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
@@ -142,6 +150,9 @@ impl Parser<'_> {
             let mut is_leading = false;
             loop {
                 p.forward();
+                if p.at_splitter() {
+                    break;
+                }
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
                 v.push_str(&p.text());
                 p.forward();
@@ -225,9 +236,20 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            let mut is_leading = true;
             loop {
-                p.nl()?;
+                if p.nl().is_err() {
+                    if is_leading {
+                        return Err(PError::Mismatch);
+                    }
+                    // No new line in the end of the document
+                    return Ok(v + "\n");
+                }
+                is_leading = false;
                 p.forward();
+                if p.food().is_empty() || p.at_splitter() {
+                    break;
+                }
                 if p.ind(level).is_err() {
                     if let Ok(t) = p.gap(false) {
                         for _ in 0..t {
-- 
2.43.0


From 0fe6bbdd401a524b75438144b1c02662064ea3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 14/34] fix: forget the indents of the previous document

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 654a0f6..ce43cd8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -187,6 +187,8 @@ impl<R: Repr> Loader<'_, R> {
         self.context(|p| p.bound().unwrap_or_default());
         // The properties of the root might be behind a new line
         self.gap(true).unwrap_or_default();
+        // Clear the indent settings of the last document
+        self.ind(0)?;
         self.forward();
         self.doc_ind = self.anchors.len();
         self.anchors.push(Anchors::new());
-- 
2.43.0


From 22ed43cc8ca9ae0e978c87b9366027f14b6fe48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 15/34] fix: quote strings with leading white spaces

---
 src/dumper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 457dfdd..93bd8e2 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -154,7 +154,8 @@ fn is_literal(s: &str) -> bool {
 
 /// Plain string if it can be read back, otherwise quoted string.
 fn single_line(s: &str) -> String {
-    let is_plain = !s.starts_with("---")
+    let is_plain = s == s.trim()
+        && !s.starts_with("---")
         && !s.starts_with("...")
         && !s.contains(['\n', '\r'])
         && parser::Loader::<repr::RcRepr>::new(format!("{s}{NL}").as_bytes())
-- 
2.43.0


From f6231afdcc57760d17c1c7a77ff75c7189552e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 16/34] fix: quote strings which look like directives

---
 src/dumper.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dumper.rs b/src/dumper.rs
index 93bd8e2..d89b475 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -157,6 +157,7 @@ fn single_line(s: &str) -> String {
     let is_plain = s == s.trim()
         && !s.starts_with("---")
         && !s.starts_with("...")
+        && !s.starts_with('%')
         && !s.contains(['\n', '\r'])
         && parser::Loader::<repr::RcRepr>::new(format!("{s}{NL}").as_bytes())
             .parse()
-- 
2.43.0


From b0010b4b0f26ab652d600c35e262c506fb5f37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 17/34] fix: reject keys nested too deep in flow maps

---
 src/parser/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ce43cd8..66b19c1 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -234,6 +234,9 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
+        if level > MAX_LEVEL {
+            return self.err("nesting level");
+        }
         self.scalar_node(|p| p.scalar_term(level, flow))
     }
 
-- 
2.43.0


From 4a3f02f4bf298640acfed01a0dd4f0de3f0d6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 18/34] fix: apply the primary tag handle

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index c1a970e..2d7445f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -330,7 +330,8 @@ impl Parser<'_> {
                         None => return p.err("tag handle"),
                     }
                 } else {
-                    String::new()
+                    // Primary tag handle
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From 7e75d55a645fb1b32e62ef82a4957795f9e0069b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:15 +0000
Subject: [PATCH 19/34] fix: keep complex keys behind their indicator

---
 src/dumper.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index d89b475..c7f02ec 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -115,8 +115,8 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     match k.yaml() {
                         Yaml::Map(_) | Yaml::Seq(_) => {
                             let s = self.part(k, Root::Map, self.level + 1);
-                            let pre_ind = "  ".repeat(self.level + 1);
-                            write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                            let sp = if s.starts_with(NL) { "" } else { " " };
+                            write!(buf, "?{sp}{s}{NL}{ind}").unwrap();
                         }
                         _ => buf += &self.part(k, Root::Key, self.level + 1),
                     }
-- 
2.43.0


From 65dceb97df7aacde2148a6aa16cf332628b590fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 20/34] fix: keep the properties of the first key apart from
 the map

---
 src/dumper.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index c7f02ec..a45a011 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -112,13 +112,23 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || self.root == Root::Map {
                         buf += &ind;
                     }
-                    match k.yaml() {
+                    let (s, complex) = match k.yaml() {
                         Yaml::Map(_) | Yaml::Seq(_) => {
-                            let s = self.part(k, Root::Map, self.level + 1);
-                            let sp = if s.starts_with(NL) { "" } else { " " };
-                            write!(buf, "?{sp}{s}{NL}{ind}").unwrap();
+                            (self.part(k, Root::Map, self.level + 1), true)
                         }
-                        _ => buf += &self.part(k, Root::Key, self.level + 1),
+                        _ => {
+                            let s = self.part(k, Root::Key, self.level + 1);
+                            // The properties in front of the first key belong to the map
+                            let first = i == 0 && self.root != Root::Map;
+                            let complex = first && s.starts_with(['&', '!']);
+                            (s, complex)
+                        }
+                    };
+                    if complex {
+                        let sp = if s.starts_with(NL) { "" } else { " " };
+                        write!(buf, "?{sp}{s}{NL}{ind}").unwrap();
+                    } else {
+                        buf += &s;
                     }
                     buf += ":";
                     let s = match v.yaml() {
-- 
2.43.0


From 2474099d07a1dde524fc3c5f5f40832766803ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 21/34] fix: read fractions with an exponent

---
 src/parser/base/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 2d7445f..a3b3717 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -75,6 +75,8 @@ impl Parser<'_> {
     /// Match float with scientific notation.
     pub fn sci_float(&mut self) -> PResult<String> {
         self.num_prefix()?;
+        self.take_while(Self::is_in(b"."), TakeOpt::Range(0, 1))?;
+        self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         self.sym_set(b"eE")?;
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
-- 
2.43.0


From 17a70ea70773fb2e386056218c59b073216d6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 22/34] fix: accept exactly the digits of the radix

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a3b3717..4678c4c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -55,8 +55,8 @@ impl Parser<'_> {
         self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
     }
 
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+    fn ascii_digit(radix: u32) -> impl Fn(&u8) -> bool + 'static {
+        move |c| char::from(*c).is_digit(radix)
     }
 
     /// Match float.
-- 
2.43.0


From af77c017ef58fafd724b43fcf5e2d85cda248fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:36 +0000
Subject: [PATCH 23/34] fix: keep the indicator when no folded string follows

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 66b19c1..7de295a 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -225,6 +225,8 @@ impl<R: Repr> Loader<'_, R> {
             } else if let Ok(s) = p.string_folded(level) {
                 Ok(R::new_rc(Yaml::Str(s)))
             } else {
+                // The indicator is not followed by a folded string
+                p.backward();
                 p.seq(level, map)
                     .or_else(|e| e.or(|| p.map(level, map, flow)))
                     .or_else(|e| e.or(|| p.scalar_term(level, flow)))
-- 
2.43.0


From 3a04ce57490754053f2121bf4bec153528e8822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 24/34] fix: keep the tag and the place of values on their own
 line

---
 src/parser/mod.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7de295a..759bf49 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -221,15 +221,16 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.scalar_node(|p| {
             if let Ok(s) = p.string_literal(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+                Ok(Ok(R::new_rc(Yaml::Str(s))))
             } else if let Ok(s) = p.string_folded(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+                Ok(Ok(R::new_rc(Yaml::Str(s))))
             } else {
                 // The indicator is not followed by a folded string
                 p.backward();
                 p.seq(level, map)
-                    .or_else(|e| e.or(|| p.map(level, map, flow)))
-                    .or_else(|e| e.or(|| p.scalar_term(level, flow)))
+                    .map(Ok)
+                    .or_else(|e| e.or(|| p.map_or_key(level, map, flow)))
+                    .or_else(|e| e.or(|| p.scalar_term(level, flow).map(Ok)))
             }
         })
     }
@@ -239,12 +240,12 @@ impl<R: Repr> Loader<'_, R> {
         if level > MAX_LEVEL {
             return self.err("nesting level");
         }
-        self.scalar_node(|p| p.scalar_term(level, flow))
+        self.scalar_node(|p| p.scalar_term(level, flow).map(Ok))
     }
 
     fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
     where
-        F: FnOnce(&mut Self) -> PResult<R::Rc>,
+        F: FnOnce(&mut Self) -> PResult<Result<R::Rc, Node<R>>>,
     {
         let mut anchor = self.anchor().unwrap_or_default();
         if !anchor.is_empty() {
@@ -269,7 +270,11 @@ impl<R: Repr> Loader<'_, R> {
         let pos = self.indicator();
         let yaml = f(self)?;
         self.forward();
-        let node = Node::new_repr(yaml, pos, &tag);
+        let node = match yaml {
+            Ok(yaml) => Node::new_repr(yaml, pos, &tag),
+            Err(node) if tag.is_empty() => node,
+            Err(node) => Node::new_repr(node.clone_yaml(), node.pos(), &tag),
+        };
         if !anchor.is_empty()
             && self.anchors[self.doc_ind]
                 .insert(anchor, node.clone())
@@ -430,6 +435,17 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match map.
     pub fn map(&mut self, level: usize, map: bool, flow: bool) -> PResult<R::Rc> {
+        self.map_or_key(level, map, flow)
+            .map(|r| r.unwrap_or_else(|k| k.clone_yaml()))
+    }
+
+    /// Match map, or just the node of the first key if it has no value.
+    fn map_or_key(
+        &mut self,
+        level: usize,
+        map: bool,
+        flow: bool,
+    ) -> PResult<Result<R::Rc, Node<R>>> {
         let mut m = vec![];
         loop {
             self.forward();
@@ -457,7 +473,7 @@ impl<R: Repr> Loader<'_, R> {
                 };
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
-                    return Ok(k.clone_yaml());
+                    return Ok(Err(k));
                 }
                 k
             } else {
@@ -494,7 +510,7 @@ impl<R: Repr> Loader<'_, R> {
         }
         // Keep last wrapping
         self.backward();
-        Ok(R::new_rc(m.into_iter().collect()))
+        Ok(Ok(R::new_rc(m.into_iter().collect())))
     }
 }
 
-- 
2.43.0


From 07810c043616686b3a2062f5124ebf44d9a6c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 25/34] fix: reject floats out of range instead of reading
 infinity

---
 src/node.rs           |  4 ++--
 src/serde/de.rs       |  2 +-
 src/serde/ser_node.rs |  4 ++--
 src/yaml.rs           | 18 ++++++++++++------
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index aecf200..5449b06 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -230,7 +230,7 @@ impl<R: Repr> Node<R> {
     /// ```
     pub fn as_float(&self) -> Result<f64, u64> {
         match self.yaml() {
-            Yaml::Float(s) => to_f64(s).map_err(|_| self.pos),
+            Yaml::Float(s) => to_f64(s).ok_or(self.pos),
             _ => Err(self.pos),
         }
     }
@@ -246,7 +246,7 @@ impl<R: Repr> Node<R> {
     pub fn as_number(&self) -> Result<f64, u64> {
         match self.yaml() {
             Yaml::Int(s) => to_i64(s).map(|n| n as f64).map_err(|_| self.pos),
-            Yaml::Float(s) => to_f64(s).map_err(|_| self.pos),
+            Yaml::Float(s) => to_f64(s).ok_or(self.pos),
             _ => Err(self.pos),
         }
     }
diff --git a/src/serde/de.rs b/src/serde/de.rs
index c6eba61..71430ff 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -550,7 +550,7 @@ where
 }
 
 fn float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
-    to_f64(n).map_err(|_| unexpected(node, "float"))
+    to_f64(n).ok_or_else(|| unexpected(node, "float"))
 }
 
 fn int_as_float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index 9d6389d..7dbac44 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -27,8 +27,8 @@ impl<R: Repr> Serialize for Node<R> {
                 }
             }
             Yaml::Float(n) => match to_f64(n) {
-                Ok(n) => serializer.serialize_f64(n),
-                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+                Some(n) => serializer.serialize_f64(n),
+                None => Err(S::Error::custom(format!("float {n}"))),
             },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
diff --git a/src/yaml.rs b/src/yaml.rs
index 66db664..68bd515 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -49,8 +49,14 @@ pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
     }
 }
 
-pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
-    s.parse()
+/// Numbers out of range are not infinity.
+pub(crate) fn to_f64(s: &str) -> Option<f64> {
+    let n = s.parse::<f64>().ok()?;
+    if n.is_infinite() && s.contains(|c: char| c.is_ascii_digit()) {
+        None
+    } else {
+        Some(n)
+    }
 }
 
 /// YAML data types, but it is recommended to use [`Node`] for shorten code.
@@ -148,10 +154,10 @@ impl<R: Repr> Hash for Yaml<R> {
             Self::Float(s) => {
                 state.write_u8(4);
                 match to_f64(s) {
-                    Ok(n) if n.is_nan() => f64::NAN.to_bits().hash(state),
+                    Some(n) if n.is_nan() => f64::NAN.to_bits().hash(state),
                     // Zeros are equal regardless of the sign
-                    Ok(n) => (n + 0.).to_bits().hash(state),
-                    Err(_) => s.hash(state),
+                    Some(n) => (n + 0.).to_bits().hash(state),
+                    None => s.hash(state),
                 }
             }
             Self::Str(s) => {
@@ -185,7 +191,7 @@ impl<R: Repr> PartialEq for Yaml<R> {
                 _ => s1 == s2,
             },
             (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
-                (Ok(f1), Ok(f2)) => f1 == f2 || (f1.is_nan() && f2.is_nan()),
+                (Some(f1), Some(f2)) => f1 == f2 || (f1.is_nan() && f2.is_nan()),
                 _ => s1 == s2,
             },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
-- 
2.43.0


From c230d86cb3af5dadf076d37830ded500a1cca102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 26/34] fix: round numbers to single floats once, within range

---
 src/serde/de.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 71430ff..2025749 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -360,8 +360,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(float(&self, n)? as f32),
-            Yaml::Int(n) => visitor.visit_f32(int_as_float(&self, n)? as f32),
+            Yaml::Float(n) | Yaml::Int(n) => visitor.visit_f32(single_float(&self, n)?),
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -553,6 +552,19 @@ fn float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
     to_f64(n).ok_or_else(|| unexpected(node, "float"))
 }
 
+/// Rounded once, from the text.
+fn single_float<R: Repr>(node: &Node<R>, n: &str) -> Result<f32, SerdeError> {
+    let f = match n.parse::<f32>() {
+        Ok(f) => f,
+        // With radix
+        Err(_) => to_i64(n).map_err(|_| unexpected(node, "float"))? as f32,
+    };
+    if f.is_infinite() && float(node, n)?.is_finite() {
+        return Err(unexpected(node, "float"));
+    }
+    Ok(f)
+}
+
 fn int_as_float<R: Repr>(node: &Node<R>, n: &str) -> Result<f64, SerdeError> {
     match to_i64(n) {
         Ok(n) => Ok(n as f64),
-- 
2.43.0


From bab701e58bddef94cd501fd7c53209d37b9cbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 27/34] fix: tell document splitters from scalars that start
 like them

---
 src/parser/base/grammar.rs | 11 +++++++++++
 src/parser/mod.rs          |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 4678c4c..bde6a5c 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -22,6 +22,17 @@ impl Parser<'_> {
             && (self.pos == 0 || matches!(self.doc[self.pos - 1], b'\n' | b'\r'))
     }
 
+    /// Match a document splitter, other than the text of a plain scalar.
+    pub(crate) fn splitter(&mut self, s: &[u8]) -> PResult<()> {
+        self.sym_seq(s)?;
+        if self.food().first().map_or(true, u8::is_ascii_whitespace) {
+            Ok(())
+        } else {
+            self.backward();
+            Err(PError::Mismatch)
+        }
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 759bf49..bba0e44 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -167,14 +167,14 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"---").unwrap_or_default();
+        self.splitter(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
             if self.food().is_empty() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if self.splitter(b"---").is_err() {
                 return self.err("document splitter");
             }
             v.push(self.doc()?);
@@ -194,7 +194,7 @@ impl<R: Repr> Loader<'_, R> {
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        self.splitter(b"...").unwrap_or_default();
         self.forward();
         Ok(ret)
     }
@@ -205,7 +205,7 @@ impl<R: Repr> Loader<'_, R> {
             true
         } else {
             self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
+                let b = p.splitter(b"---").is_ok() || p.splitter(b"...").is_ok();
                 if b {
                     p.backward();
                 }
-- 
2.43.0


From 36c10d9dffb2f7fdd90470fe1fbb056fa6b83fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:20 +0000
Subject: [PATCH 28/34] fix: keep the exact number in Stringify when a float
 cannot

---
 src/serde/stringify.rs | 71 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/serde/stringify.rs b/src/serde/stringify.rs
index 572e665..edb0f8e 100644
--- a/src/serde/stringify.rs
+++ b/src/serde/stringify.rs
@@ -1,6 +1,9 @@
-use alloc::string::String;
+use alloc::string::{String, ToString};
 use core::fmt::{Display, Formatter};
-use serde::{Deserialize, Serialize};
+use serde::{
+    de::{Error, Unexpected, Visitor},
+    Deserialize, Deserializer, Serialize,
+};
 
 /// A type that can deserialize from any data to string type.
 ///
@@ -33,9 +36,67 @@ pub enum Stringify {
     /// Integer value.
     Int(i32),
     /// Float value.
-    Float(f32),
-    /// String value.
-    Str(String),
+    Float(#[serde(deserialize_with = "float")] f32),
+    /// String value, or the number that is out of the range of the types above.
+    Str(#[serde(deserialize_with = "string")] String),
+}
+
+/// Read a float, but not an integer or a number which becomes infinity.
+fn float<'a, D: Deserializer<'a>>(deserializer: D) -> Result<f32, D::Error> {
+    struct FloatVisitor;
+
+    impl Visitor<'_> for FloatVisitor {
+        type Value = f32;
+
+        fn expecting(&self, f: &mut Formatter) -> core::fmt::Result {
+            f.write_str("f32")
+        }
+
+        fn visit_f32<E: Error>(self, n: f32) -> Result<f32, E> {
+            Ok(n)
+        }
+
+        fn visit_f64<E: Error>(self, n: f64) -> Result<f32, E> {
+            let v = n as f32;
+            if v.is_infinite() && n.is_finite() {
+                return Err(E::invalid_value(Unexpected::Float(n), &self));
+            }
+            Ok(v)
+        }
+    }
+
+    deserializer.deserialize_f32(FloatVisitor)
+}
+
+/// Read a string, or the text of a number.
+fn string<'a, D: Deserializer<'a>>(deserializer: D) -> Result<String, D::Error> {
+    struct StringVisitor;
+
+    impl Visitor<'_> for StringVisitor {
+        type Value = String;
+
+        fn expecting(&self, f: &mut Formatter) -> core::fmt::Result {
+            f.write_str("a string or a number")
+        }
+
+        fn visit_i64<E: Error>(self, n: i64) -> Result<String, E> {
+            Ok(n.to_string())
+        }
+
+        fn visit_u64<E: Error>(self, n: u64) -> Result<String, E> {
+            Ok(n.to_string())
+        }
+
+        fn visit_f64<E: Error>(self, n: f64) -> Result<String, E> {
+            Ok(n.to_string())
+        }
+
+        fn visit_str<E: Error>(self, s: &str) -> Result<String, E> {
+            Ok(s.to_string())
+        }
+    }
+
+    deserializer.deserialize_any(StringVisitor)
 }
 
 impl Display for Stringify {
-- 
2.43.0


From 6cb55b4bb2bc8b6f024792a9ab0fe5e2f5870ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:36 +0000
Subject: [PATCH 29/34] fix: skip blank lines which contain white spaces

---
 src/parser/base/grammar.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bde6a5c..d49dcc3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -440,10 +440,11 @@ impl Parser<'_> {
             loop {
                 // Check point
                 p.forward();
-                p.ws(TakeOpt::More(0))?;
                 if cmt {
+                    // A mismatched comment moves back to the check point
                     p.comment().unwrap_or_default();
                 }
+                p.ws(TakeOpt::More(0))?;
                 if p.nl().is_err() {
                     p.backward();
                     return Ok(t);
-- 
2.43.0


From 942f188179f6732ff1c898ee7ef71867bd4edd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:36 +0000
Subject: [PATCH 30/34] fix: end the prefix of a tag directive at a tab

---
 src/parser/base/directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..1c301f0 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -45,7 +45,7 @@ impl Parser<'_> {
             };
             p.ws(TakeOpt::More(1))?;
             let doc = p.context(|p| {
-                p.take_while(Self::not_in(b" \n\r"), TakeOpt::More(1))?;
+                p.take_while(Self::not_in(b" \t\n\r"), TakeOpt::More(1))?;
                 Ok(p.text())
             })?;
             p.tag.insert(tag, doc);
-- 
2.43.0


From e35328ffe80c0ef4fd8791198003c4a7e3a9fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:22 +0000
Subject: [PATCH 31/34] fix: accept white spaces at the end of a line

---
 src/parser/base/grammar.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index d49dcc3..a07a88b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -435,7 +435,11 @@ impl Parser<'_> {
             if cmt {
                 p.comment().unwrap_or_default();
             }
-            p.nl()?;
+            p.ws(TakeOpt::More(0))?;
+            if p.nl().is_err() {
+                p.backward();
+                return Err(PError::Mismatch);
+            }
             let mut t = 1;
             loop {
                 // Check point
-- 
2.43.0


From 8c50c1d05dabfb53868b4510daf374b55301145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 32/34] fix: accept white spaces in front of map indicators

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index bba0e44..993d6d4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -375,6 +375,7 @@ impl<R: Repr> Loader<'_, R> {
                 self.scalar_flow(level + 1, true)
                     .or_else(|e| e.or(|| self.err("flow map key")))?
             };
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
@@ -384,6 +385,7 @@ impl<R: Repr> Loader<'_, R> {
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
                 self.sym(b'}')?;
@@ -471,6 +473,7 @@ impl<R: Repr> Loader<'_, R> {
                 } else {
                     self.scalar_flow(level + 1, flow)?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
                     return Ok(Err(k));
@@ -497,6 +500,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     return self.err("map splitter");
                 }
-- 
2.43.0


From a0f965ca0bed3ac7322073a807eefc85e2291422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:41 +0000
Subject: [PATCH 33/34] fix: read numbers in front of comments, and texts that
 start with a number

---
 src/parser/base/grammar.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index a07a88b..36ce45d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -44,6 +44,19 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))
     }
 
+    /// Match the end of a number, other than a plain scalar that goes on.
+    fn num_bound(&mut self) -> PResult<()> {
+        let ws = self.count(|p| p.ws(TakeOpt::More(0)))?;
+        match self.food().first() {
+            Some(b':' | b'{' | b'}' | b'[' | b']' | b',' | b'\n' | b'\r') => Ok(()),
+            Some(b'#') | None if ws > 0 => Ok(()),
+            _ => {
+                self.backward();
+                Err(PError::Mismatch)
+            }
+        }
+    }
+
     /// Match integer.
     pub fn int(&mut self) -> PResult<String> {
         self.num_prefix()?;
@@ -51,8 +64,7 @@ impl Parser<'_> {
         if s.as_bytes() == b"0" && self.context(|p| p.octal().is_ok() || p.hexadecimal().is_ok()) {
             s = self.text();
         }
-        self.ws(TakeOpt::More(0))?;
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
@@ -76,10 +88,7 @@ impl Parser<'_> {
         self.sym(b'.')?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s.trim_end_matches(".0").to_string())
     }
 
@@ -92,10 +101,7 @@ impl Parser<'_> {
         self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
         let s = self.text();
-        if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
-            self.back(1);
-        }
-        self.bound()?;
+        self.num_bound()?;
         Ok(s)
     }
 
-- 
2.43.0


From abe8974453b4327d2ce9b03378ef608baddfe6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:15 +0000
Subject: [PATCH 34/34] fix: reject flow collections without their closing
 bracket

---
 src/parser/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 993d6d4..9f7ee8e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -25,12 +25,14 @@
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
+//! + flow sequence terminator: `[]` bracket is not closed behind an item.
 //!
 //! ### Flow Map
 //!
 //! + flow map key: Key of map item in `{}` bracket is invalid.
 //! + flow map value: Value of map item in `{}` bracket is invalid.
 //! + flow map splitter: Splitter `:` of map item in `{}` bracket is invalid.
+//! + flow map terminator: `{}` bracket is not closed behind an item.
 //!
 //! ### Array
 //!
@@ -343,7 +345,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence terminator");
+                }
                 break;
             }
         }
@@ -388,7 +392,9 @@ impl<R: Repr> Loader<'_, R> {
             self.inv(TakeOpt::More(0))?;
             if self.sym(b',').is_err() {
                 self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map terminator");
+                }
                 break;
             }
         }
-- 
2.43.0

