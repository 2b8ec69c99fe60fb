From 225f1551c74d02a09f3ca76fc5d2bd48e5aecc7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 01/16] fix: line_comment accepts slash comments too

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..a36f5c6 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -52,7 +52,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From 12d8dcd30fdc2c65dbb5e31f9fa9f1b8e1359d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 02/16] fix: unindenting a heredoc no longer panics on short
 lines

---
 lib/src/parser/string.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..a6fab9d 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -64,16 +64,9 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
 
     let mut result = String::with_capacity(string.len());
     for line in string.split('\n') {
-        // Trim spaces at the beginning first
-        // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
+        // Trim spaces at the beginning, up to `indentation` of them
+        let spaces = line.len() - line.trim_start_matches(' ').len();
+        let rest = &line[spaces.min(indentation)..];
         result.push_str(rest);
         result.push('\n');
     }
-- 
2.43.0


From 9f05c6ed6ac647eecd9e49c684bcdc5c4ef67b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 03/16] fix: len, len_scalar, is_merged and is_unmerged no
 longer panic on a null value

---
 lib/src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..12a9557 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -106,6 +106,7 @@ impl<'a> Value<'a> {
             1
         } else {
             match self {
+                Value::Null => 0,
                 Value::List(vector) => vector.len(),
                 Value::Object(vectors) => vectors.len(),
                 Value::Block(block) => block.len(),
@@ -497,6 +498,7 @@ impl<'a> ScalarLength for Value<'a> {
             1
         } else {
             match self {
+                Value::Null => 0,
                 Value::List(vector) => vector.len_scalar(),
                 Value::Object(vectors) => vectors.len_scalar(),
                 Value::Block(block) => block.len_scalar(),
@@ -512,6 +514,7 @@ impl<'a> crate::Mergeable for Value<'a> {
             true
         } else {
             match self {
+                Value::Null => true,
                 Value::List(vector) => vector.is_merged(),
                 Value::Object(vectors) => vectors.is_merged(),
                 Value::Block(block) => block.is_merged(),
@@ -525,6 +528,7 @@ impl<'a> crate::Mergeable for Value<'a> {
             true
         } else {
             match self {
+                Value::Null => true,
                 Value::List(vector) => vector.is_unmerged(),
                 Value::Object(vectors) => vectors.is_unmerged(),
                 Value::Block(block) => block.is_unmerged(),
-- 
2.43.0


From 6c9f381d2adf16fa37d04ea58832e6f0f2ba5b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 04/16] fix: converting the minimum of a signed type to Number
 no longer overflows

---
 lib/src/parser/number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..fdde448 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,7 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                let whole = Some(Cow::Owned(n.to_string().trim_start_matches('-').to_string()));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From 9b63dc67fad51f68cc8a500be584bae8a2e5b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 05/16] fix: Number equality respects the sign of floats and is
 reflexive

---
 lib/src/parser/number.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index fdde448..d5a9dc6 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -156,6 +156,11 @@ impl<'a> AsOwned for Number<'a> {
 
 impl<'a> std::cmp::PartialEq for Number<'a> {
     fn eq(&self, other: &Self) -> bool {
+        // The same literal is always the same number, even when it is too big to be converted
+        if self.input == other.input {
+            return true;
+        }
+
         if self.is_float() || other.is_float() {
             // Good enough comparison
             // From https://users.rust-lang.org/t/assert-eq-for-float-numbers/7034/4
@@ -166,8 +171,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -178,7 +183,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From 1287e8bba208518e95455cc2e3ed7ddfe1c9e41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 06/16] fix: Blocks::new keeps blocks of the same type that are
 not adjacent

---
 lib/src/parser/block.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..a2d4e82 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -12,6 +12,7 @@ use std::collections::{BTreeSet, HashMap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::iter::{Extend, FromIterator};
 
+#[cfg(test)]
 use itertools::Itertools;
 use nom::types::CompleteStr;
 use nom::{alt, call, many0, named, opt, tag};
@@ -194,16 +195,11 @@ impl<'a> Blocks<'a> {
     where
         T: IntoIterator<Item = Block<'a>>,
     {
-        let mut hashmap = HashMap::new();
-        for (block_type, blocks) in blocks
-            .into_iter()
-            .group_by(|block| block.r#type.clone())
-            .into_iter()
-        {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
-        }
-        Self { blocks: hashmap }
+        let mut result = Self {
+            blocks: HashMap::new(),
+        };
+        result.extend(blocks);
+        result
     }
 
     pub fn append(&mut self, block: Block<'a>) {
-- 
2.43.0


From 2cb02ab2eebed1e1f408505bf9b2cc32ab2d2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 07/16] fix: appending a block under a new label keeps its
 remaining labels

---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index a2d4e82..ce79f03 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -426,7 +426,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut nested = BlockBody::default();
+                            nested.append(labels, body);
+                            vacant.insert(nested);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From ea12ed9909a7dbbc301051c29da58ef880aded77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 08/16] fix: label_lens_uniform counts the labels at every
 level

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index ce79f03..9b9610c 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -641,7 +641,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From f943b001158d0bf4869b4ec2c7cf9d7d0b4354fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 09/16] fix: equality of block labels and keys agrees with
 their Hash and Borrow<str>

---
 lib/src/parser/block.rs        | 9 ++++++++-
 lib/src/parser/literals/key.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 9b9610c..8f2af59 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -58,7 +58,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -83,6 +83,13 @@ impl<'a> Hash for BlockLabel<'a> {
     }
 }
 
+/// Labels are equal when their text is, consistently with their `Hash` and `Borrow<str>`
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a, S> PartialEq<S> for BlockLabel<'a>
 where
     S: AsRef<str>,
diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..f8d8fe7 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,13 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+/// Keys are equal when their text is, consistently with their `Hash` and `Borrow<str>`
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From b05273200c9b034e69f9fbab5649ed765aa0fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 10/16] fix: integers above i64::MAX can be deserialized

---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From 328038bf762466496c899d7860e0cafe9f8ba70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 11/16] fix: an attribute and a block with the same name is a
 deserialization error, not a panic

---
 lib/src/serde/de/body.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..9a9147b 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,11 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // Blocks of the same type are merged, so the key can only have been seen before
+                // as an attribute
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From 1476c9a393608b3701314572273b4493070fe948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 12/16] fix: negative zero converted to Number is not marked
 positive

---
 lib/src/parser/number.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index d5a9dc6..100b306 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -88,7 +88,8 @@ macro_rules! from_float {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let string = if n >= 0.0 {
+                let positive = n.is_sign_positive();
+                let string = if positive {
                     n.to_string()
                 } else {
                     (n*-1.0).to_string()
@@ -96,7 +97,7 @@ macro_rules! from_float {
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-                Self::new(Cow::Owned(n.to_string()), n >= 0.0, whole, fraction, None)
+                Self::new(Cow::Owned(n.to_string()), positive, whole, fraction, None)
             }
         }
     )*};
-- 
2.43.0


From 3d72afbd9c1c202bef21dddbb0c8954a3666f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 13/16] fix: merging blocks with duplicate labels is an error
 instead of dropping one

---
 lib/src/value.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 12a9557..17b99d7 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -623,10 +623,14 @@ impl<'a> Block<'a> {
     {
         let mut merged = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let key: Vec<String> = key.into_iter().map(|s| s.to_string()).collect();
+            if merged.contains_key(&key) {
+                return Err(Error::IllegalMultipleEntries {
+                    key: key.join(" "),
+                    variant: BLOCK,
+                });
+            }
+            let _ = merged.insert(key, value.merge()?);
         }
         Ok(KeyValuePairs::Merged(merged))
     }
@@ -826,6 +830,15 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
+                                if let Some((labels, _)) = incoming
+                                    .iter()
+                                    .find(|(labels, _)| block.get_single(*labels).is_some())
+                                {
+                                    return Err(Error::IllegalMultipleEntries {
+                                        key: format!("{} {}", key, labels.join(" ")),
+                                        variant: BLOCK,
+                                    });
+                                }
                                 block.extend(incoming);
                             } else {
                                 return Err(Error::ErrorMergingKeys {
-- 
2.43.0


From 0595c76abd90cd284690cfca4cf3c69769025140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 14/16] fix: deserializing labelled blocks returns an error
 instead of panicking

---
 lib/src/serde/de/block.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..1afa578 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -29,6 +29,10 @@ where
     BodyDeserializer::new(body).deserialize_map(visitor)
 }
 
+fn unsupported_labels() -> Compat {
+    de::Error::custom("deserializing blocks with labels is not yet supported")
+}
+
 /// Possible states of `BlockBody`:
 /// - Empty: Single Body => Deserialize Map/Struct
 /// - Empty: Multiple Bodies => Seq
@@ -63,7 +67,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(unsupported_labels())
             }
         }
     }
@@ -95,7 +99,7 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(unsupported_labels())
             }
         }
     }
-- 
2.43.0


From 5e3afeab2887ca519cf9a4a69a3d9f9483e8a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 15/16] fix: deserializing objects with expressions as keys
 returns an error instead of panicking

---
 lib/src/serde/de/object.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..65d029e 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow;
 use std::collections::HashSet;
 
-use serde::de::{DeserializeSeed, IntoDeserializer, MapAccess};
+use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess};
 
 use crate::parser::expression::Expression;
 use crate::parser::object::{Object, ObjectElementIdentifier};
@@ -40,7 +40,15 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = match key {
+            ObjectElementIdentifier::Identifier(ident) => ident,
+            ObjectElementIdentifier::Expression(expr) => {
+                return Err(de::Error::custom(format!(
+                    "expressions as object keys are not yet supported: {}",
+                    expr
+                )));
+            }
+        };
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From d57e8f1856d5d342f66555bbc7cd558b17bc2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 16/16] fix: report the custom error of a failure wrapped by
 outer combinators

---
 lib/src/errors.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/errors.rs b/lib/src/errors.rs
index c7b33fe..051a735 100644
--- a/lib/src/errors.rs
+++ b/lib/src/errors.rs
@@ -156,11 +156,12 @@ impl Error {
                 Self::from_input_and_code(input, *code, convert_fn)
             }
             Context::List(list) => {
-                if let Some((input, ErrorKind::Custom(code))) = list.last() {
-                    Self::from_input_and_code(input, *code, convert_fn)
-                } else {
-                    None
-                }
+                // Combinators around the one that failed append their own (not custom) kinds
+                let custom = list.iter().rev().find_map(|(input, kind)| match kind {
+                    ErrorKind::Custom(code) => Some((input, *code)),
+                    _ => None,
+                });
+                custom.and_then(|(input, code)| Self::from_input_and_code(input, code, convert_fn))
             }
             _ => None,
         }
-- 
2.43.0

