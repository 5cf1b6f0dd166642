From 39c8adce7c3785b754582fdff512f7069581174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 01/50] fix: reject malformed numbers in JSON samples

---
 json_typegen_shared/src/inference/jsonlex.rs | 37 +++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7067727..81710be 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -180,13 +180,48 @@ impl<R: Read> JsonLexer<R> {
                 _ => break,
             }
         }
-        // TODO: Actually parse numbers
+        if !is_json_number(&buffer) {
+            return Err(JsonInputErr::InvalidJson);
+        }
         Ok(JsonToken::Number(
             String::from_utf8(buffer).map_err(|_err| JsonInputErr::InvalidUtf8)?,
         ))
     }
 }
 
+/// The number grammar of RFC 8259
+fn is_json_number(s: &[u8]) -> bool {
+    fn skip_digits(s: &[u8]) -> Option<&[u8]> {
+        let n = s.iter().take_while(|b| b.is_ascii_digit()).count();
+        if n == 0 { None } else { Some(&s[n..]) }
+    }
+    let s = s.strip_prefix(b"-").unwrap_or(s);
+    let mut rest = match s.strip_prefix(b"0") {
+        Some(rest) => rest,
+        None => match skip_digits(s) {
+            Some(rest) => rest,
+            None => return false,
+        },
+    };
+    if let Some(fraction) = rest.strip_prefix(b".") {
+        rest = match skip_digits(fraction) {
+            Some(rest) => rest,
+            None => return false,
+        };
+    }
+    if let [b'e' | b'E', exponent @ ..] = rest {
+        let digits = match exponent {
+            [b'+' | b'-', digits @ ..] => digits,
+            _ => exponent,
+        };
+        rest = match skip_digits(digits) {
+            Some(rest) => rest,
+            None => return false,
+        };
+    }
+    rest.is_empty()
+}
+
 impl<R: Read> Iterator for JsonLexer<R> {
     type Item = Result<JsonToken, JsonInputErr>;
 
-- 
2.43.0


From cc653381bf6789156925e3b7f0501b686889c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 02/50] fix: reject unescaped control characters in JSON
 strings

---
 json_typegen_shared/src/inference/jsonlex.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 81710be..7f46efa 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -141,6 +141,8 @@ impl<R: Read> JsonLexer<R> {
                     }
                     _ => return Err(JsonInputErr::InvalidEscape(escaped)),
                 };
+            } else if byte < 0x20 {
+                return Err(JsonInputErr::InvalidJson);
             } else {
                 self.buffer.push(byte)
             }
-- 
2.43.0


From 62e6502e47add6f63e16deb567da1ad486748791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 03/50] fix: reject mismatched UTF-16 surrogates in JSON string
 escapes

---
 json_typegen_shared/src/inference/jsonlex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsonlex.rs b/json_typegen_shared/src/inference/jsonlex.rs
index 7f46efa..ac3b76f 100644
--- a/json_typegen_shared/src/inference/jsonlex.rs
+++ b/json_typegen_shared/src/inference/jsonlex.rs
@@ -128,6 +128,9 @@ impl<R: Read> JsonLexer<R> {
                             self.skip_byte(b'\\')?;
                             self.skip_byte(b'u')?;
                             let codepoint2 = self.parse_codepoint()? as u32;
+                            if codepoint > 0xDBFF || !(0xDC00..=0xDFFF).contains(&codepoint2) {
+                                return Err(JsonInputErr::InvalidJson);
+                            }
                             codepoint = ((codepoint << 10) + codepoint2) - surrogate_offset;
                         };
                         let mut buf = [0u8; 4];
-- 
2.43.0


From 3bdd3dc7adfbcd100e0059fb0fc3ace3ef531909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 04/50] fix: reject trailing content after the JSON value

---
 json_typegen_shared/src/inference/jsoninfer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 7ec2375..3d9097f 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -21,9 +21,10 @@ pub fn shape_from_json<R: Read>(
         pointer.split('/').collect()
     };
 
-    Inference::new(read)
-        .unwrap(&pointer_tokens, options, hints)?
-        .ok_or(JsonInputErr::NoMatchForUnwrap)
+    let mut inference = Inference::new(read);
+    let shape = inference.unwrap(&pointer_tokens, options, hints)?;
+    inference.expect_end()?;
+    shape.ok_or(JsonInputErr::NoMatchForUnwrap)
 }
 
 struct Inference<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> {
@@ -55,6 +56,14 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
         }
     }
 
+    fn expect_end(&mut self) -> Result<(), JsonInputErr> {
+        match self.tokens.next() {
+            None => Ok(()),
+            Some(Ok(_)) => Err(JsonInputErr::InvalidJson),
+            Some(Err(err)) => Err(err),
+        }
+    }
+
     fn infer_shape(&mut self, options: &Options, hints: &Hints) -> Result<Shape, JsonInputErr> {
         for hint in hints.applicable.iter() {
             match hint.hint_type {
-- 
2.43.0


From 164cf02eaa8e80e95179c8e5bbd9ecf43add7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 05/50] fix: infer floating point for numbers that do not fit a
 64 bit integer

---
 json_typegen_shared/src/inference/jsoninfer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 3d9097f..69f1221 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -88,10 +88,11 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
             JsonToken::True | JsonToken::False => Ok(Shape::Bool),
             JsonToken::Null => Ok(Shape::Null),
             JsonToken::Number(s) => {
-                if s.contains('.') {
-                    Ok(Shape::Floating)
-                } else {
+                // exponents and integers outside the range of i64 are only representable as floats
+                if s.parse::<i64>().is_ok() {
                     Ok(Shape::Integer)
+                } else {
+                    Ok(Shape::Floating)
                 }
             }
             JsonToken::String(_) => Ok(Shape::StringT),
-- 
2.43.0


From c23df69d0a3138f4d995acd021da8c6f63d1fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 06/50] fix: report invalid JSON below a value with an opaque
 type hint

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 69f1221..ee6b1f0 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -77,7 +77,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 }
                 HintType::OpaqueType(ref t) => {
                     hint.used.set(true);
-                    let _ = self.infer_shape(options, &Hints::new()); // parse and discard the actual value
+                    self.infer_shape(options, &Hints::new())?; // parse and discard the actual value
                     return Ok(Shape::Opaque(t.clone()));
                 }
                 _ => {}
-- 
2.43.0


From cabb75f87619509b68de9a2f05803c61f6775f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 07/50] fix: do not apply hints to values discarded by unwrap

---
 json_typegen_shared/src/inference/jsoninfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index ee6b1f0..cc5ac21 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -253,7 +253,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ObjectEnd)) = self.tokens.peek() {
@@ -283,7 +283,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                         folded = optional_common_shape(folded, result);
                     } else {
                         // parse and discard non-matched element (could use non-inference code)
-                        let _ = self.infer_shape(options, hints)?;
+                        let _ = self.infer_shape(options, &Hints::new())?;
                     }
 
                     if let Some(&Ok(JsonToken::ArrayEnd)) = self.tokens.peek() {
-- 
2.43.0


From 8fd1f213718ca2ad9f37cd4f20f922128a00ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:11 +0000
Subject: [PATCH 08/50] fix: a property that is only ever null or missing is
 optional

---
 json_typegen_shared/src/shape.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index e496c11..1707385 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -115,7 +115,6 @@ impl Shape {
     pub(crate) fn into_optional(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
             Any | Bottom | Optional(_) => self,
             non_nullable => Optional(Box::new(non_nullable)),
         }
@@ -123,9 +122,8 @@ impl Shape {
     pub(crate) fn into_nullable(self) -> Self {
         use self::Shape::*;
         match self {
-            Null => Nullable(Box::new(self)),
-            Any | Bottom | Nullable(_) => self,
-            Optional(non_nullable) => Optional(Box::new(Nullable(non_nullable))),
+            Null | Any | Bottom | Nullable(_) => self,
+            Optional(inner) => Optional(Box::new(inner.into_nullable())),
             non_nullable => Nullable(Box::new(non_nullable)),
         }
     }
-- 
2.43.0


From a11f60a5543b2579f87b5e7647ac464b39fb4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 09/50] fix: do not reuse a type with a non-nullable property
 for one with a null property

---
 json_typegen_shared/src/shape.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index 1707385..ed0968e 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -137,7 +137,8 @@ impl Shape {
         }
         match (self, other) {
             (_, Bottom) => true,
-            (Optional(_), Null) => true,
+            (Nullable(_), Null) => true,
+            (Optional(a), Null) => a.is_acceptable_substitution_for(other),
             (Optional(a), Optional(b)) => a.is_acceptable_substitution_for(b),
             (VecT { elem_type: e1 }, VecT { elem_type: e2 }) => {
                 e1.is_acceptable_substitution_for(e2)
-- 
2.43.0


From 00cb4da223de45bf4882e2f073af2503b7075e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 10/50] fix: escape strings in JSON Schema and shape output

---
 json_typegen_shared/src/generation/value.rs |  6 ++++--
 json_typegen_shared/src/util.rs             | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/value.rs b/json_typegen_shared/src/generation/value.rs
index 8e117bc..b45cd07 100644
--- a/json_typegen_shared/src/generation/value.rs
+++ b/json_typegen_shared/src/generation/value.rs
@@ -1,5 +1,7 @@
 use linked_hash_map::LinkedHashMap;
 
+use crate::util::escape_json_string;
+
 pub enum Value {
     Null,
     Bool(bool),
@@ -15,7 +17,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
         Value::Null => "null".to_string(),
         Value::Bool(b) => format!("{}", b),
         Value::Str(s) => format!("\"{}\"", s),
-        Value::String(s) => format!("\"{}\"", s),
+        Value::String(s) => format!("\"{}\"", escape_json_string(s)),
         Value::Array(values) => {
             let mut code = "[\n".to_string();
             let len = values.len();
@@ -36,7 +38,7 @@ pub fn pretty_print_value(indent: usize, value: &Value) -> String {
             let len = map.len();
             for (i, (key, val)) in map.iter().enumerate() {
                 code += &"  ".repeat(indent + 1);
-                code += &format!("\"{}\": ", key);
+                code += &format!("\"{}\": ", escape_json_string(key));
                 code += &pretty_print_value(indent + 1, val);
                 if i != len - 1 {
                     code += ",";
diff --git a/json_typegen_shared/src/util.rs b/json_typegen_shared/src/util.rs
index 63ac86f..d268cdc 100644
--- a/json_typegen_shared/src/util.rs
+++ b/json_typegen_shared/src/util.rs
@@ -74,6 +74,25 @@ fn lowercase_first_letter(s: &str) -> String {
     }
 }
 
+/// Escape the contents of a JSON string literal.
+///
+/// The escapes used are also valid, with the same meaning, in TypeScript and Python strings.
+pub fn escape_json_string(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            '\u{0}'..='\u{1f}' | '\u{7f}' => escaped.push_str(&format!("\\u{:04x}", c as u32)),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 // based on hashmap! macro from maplit crate
 macro_rules! string_hashmap {
     ($($key:expr => $value:expr,)+) => { string_hashmap!($($key => $value),+) };
-- 
2.43.0


From c5e1f5613fac2410dce81071085b3057ad59c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:42 +0000
Subject: [PATCH 11/50] fix: escape property names in serde rename attributes

---
 json_typegen_shared/src/generation/rust.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 0921a82..fc2e82e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -252,7 +252,7 @@ fn generate_struct_type(
             };
             let mut field_code = String::new();
             if needs_rename {
-                field_code += &format!("    #[serde(rename = \"{}\")]\n", name)
+                field_code += &format!("    #[serde(rename = {:?})]\n", name)
             }
 
             let (is_collapsed, collapsed) = collapse_option_vec(ctxt, typ);
-- 
2.43.0


From 08e2c55be3e5296677ee54188788e8f0e0e4e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 12/50] fix: escape quoted property names in typescript output

---
 json_typegen_shared/src/generation/typescript.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 1015214..a9edf50 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::Options;
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::type_case;
+use crate::util::{escape_json_string, type_case};
 
 pub struct Ctxt {
     options: Options,
@@ -198,7 +198,7 @@ fn generate_interface_type(
             format!(
                 "    {}{}{}{}: {};",
                 if escape_name { "\"" } else { "" },
-                name,
+                if escape_name { escape_json_string(name) } else { name.to_string() },
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
-- 
2.43.0


From 0d0da4fcabe516436df04f823d83a13aa7a2a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 13/50] fix: escape quoted property names in
 typescript_type_alias output

---
 json_typegen_shared/src/generation/typescript_type_alias.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index c78bcff..be043d1 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -3,6 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
+use crate::util::escape_json_string;
 
 pub struct Ctxt {
     options: Options,
@@ -113,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                if escape_name { escape_json_string(name) } else { name.to_string() },
                 if escape_name { "\"" } else { "" },
                 if was_optional { "?" } else { "" },
                 field_type
-- 
2.43.0


From fa86c0c5382d3982f5396d99697ac0f0d5b5cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 14/50] fix: escape quoted property names in zod_schema output

---
 json_typegen_shared/src/generation/zod_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 6045b9b..7cd757c 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -3,7 +3,7 @@ use linked_hash_map::LinkedHashMap;
 use crate::generation::typescript::{collapse_option, is_ts_identifier};
 use crate::options::Options;
 use crate::shape::{self, Shape, common_shape};
-use crate::util::lower_camel_case;
+use crate::util::{escape_json_string, lower_camel_case};
 
 pub struct Ctxt {
     options: Options,
@@ -114,7 +114,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
                 "{}{}{}{}: {};",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
-                name,
+                if escape_name { escape_json_string(name) } else { name.to_string() },
                 if escape_name { "\"" } else { "" },
                 field_type
             )
-- 
2.43.0


From 86b19f5204b33a51027763b6c13a0b4c81498a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 15/50] fix: escape property names in pydantic aliases

---
 json_typegen_shared/src/generation/python.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 5b086ac..95589f6 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -4,7 +4,7 @@ use std::collections::HashSet;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_json_string, kebab_case, lower_camel_case, snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -268,7 +268,7 @@ fn generate_data_class(
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    transformed
+                    escape_json_string(&transformed)
                 )
             }
 
-- 
2.43.0


From ce0a706a0ef17817b7ab763b0ab3e95a10a69aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 16/50] fix: escape property names in Kotlin annotations

---
 json_typegen_shared/src/generation/kotlin.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index ac35a2f..a269a51 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -5,7 +5,7 @@ use crate::OutputMode;
 use crate::options::{ImportStyle, Options, StringTransform};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_json_string, kebab_case, lower_camel_case, snake_case, type_case};
 
 struct Ctxt {
     options: Options,
@@ -227,13 +227,13 @@ fn generate_data_class(
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "com.fasterxml.jackson.annotation.JsonProperty"),
-                        name
+                        escape_string(name)
                     )
                 } else if ctxt.options.output_mode == OutputMode::KotlinKotlinx {
                     field_code += &format!(
                         "    @{}(\"{}\")\n",
                         import(ctxt, "kotlinx.serialization.SerialName"),
-                        name
+                        escape_string(name)
                     )
                 }
             }
@@ -278,6 +278,11 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
+fn escape_string(s: &str) -> String {
+    // `$` would start a string template
+    escape_json_string(s).replace('$', "\\$")
+}
+
 fn apply_transform(ctxt: &Ctxt, field_name: &str) -> String {
     match (
         &ctxt.options.property_name_format,
-- 
2.43.0


From 8d5a9daf8c6e3d7ecd4d471252f38993105e3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 17/50] fix: separate zod object properties with commas

---
 json_typegen_shared/src/generation/zod_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 7cd757c..8835401 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -111,7 +111,7 @@ fn generate_struct_from_field_shapes(ctxt: &mut Ctxt, map: &LinkedHashMap<String
             let escape_name = !is_ts_identifier(name);
 
             format!(
-                "{}{}{}{}: {};",
+                "{}{}{}{}: {},",
                 "    ".repeat(ctxt.indent_level),
                 if escape_name { "\"" } else { "" },
                 if escape_name { escape_json_string(name) } else { name.to_string() },
-- 
2.43.0


From 5220ac0dcb71680475cc4bb745b3abc9c06282c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 18/50] fix: allow null for nullable values in JSON Schema
 output

---
 json_typegen_shared/src/generation/json_schema.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/json_schema.rs b/json_typegen_shared/src/generation/json_schema.rs
index 6f4ad48..79424a8 100644
--- a/json_typegen_shared/src/generation/json_schema.rs
+++ b/json_typegen_shared/src/generation/json_schema.rs
@@ -53,7 +53,12 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> Value {
         MapT { val_type: v } => generate_map_type(ctxt, path, v),
         Opaque(t) => Value::Object(string_hashmap! { "type" => Value::String(t.clone()) }),
         Optional(e) => type_from_shape(ctxt, path, e),
-        Nullable(e) => type_from_shape(ctxt, path, e),
+        Nullable(e) => Value::Object(string_hashmap! {
+            "anyOf" => Value::Array(vec![
+                type_from_shape(ctxt, path, e),
+                Value::Object(string_hashmap! { "type" => Value::Str("null") }),
+            ])
+        }),
     }
 }
 
-- 
2.43.0


From f4222dd9117f4e00782ccbd7dbbb7f390ded9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 19/50] fix: parenthesize union types used as array elements in
 TypeScript

---
 json_typegen_shared/src/generation/typescript.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index a9edf50..d2ba823 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -75,7 +75,10 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
 fn generate_vec_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
     let singular = to_singular(path);
     let (inner, defs) = type_from_shape(ctxt, &singular, shape);
-    (format!("{}[]", inner), defs)
+    match shape {
+        Shape::Nullable(_) | Shape::Optional(_) => (format!("({})[]", inner), defs),
+        _ => (format!("{}[]", inner), defs),
+    }
 }
 
 fn generate_map_type(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option<Code>) {
-- 
2.43.0


From d0729c120a43a3a3eec0ab1013d19801b5eb8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 20/50] fix: use the JSON property name as pydantic alias
 regardless of property_name_format

---
 json_typegen_shared/src/generation/python.rs | 23 ++++----------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 95589f6..67060ac 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -1,10 +1,10 @@
 use linked_hash_map::LinkedHashMap;
 use std::collections::HashSet;
 
-use crate::options::{ImportStyle, Options, StringTransform};
+use crate::options::{ImportStyle, Options};
 use crate::shape::{self, Shape};
 use crate::to_singular::to_singular;
-use crate::util::{escape_json_string, kebab_case, lower_camel_case, snake_case, type_case};
+use crate::util::{escape_json_string, snake_case, type_case};
 
 #[derive(PartialEq, PartialOrd, Ord, Eq, Hash, Clone, Copy)]
 enum Import {
@@ -263,12 +263,11 @@ fn generate_data_class(
             }
 
             let mut field_code = String::new();
-            let transformed = apply_transform(ctxt, &field_name, name);
-            if transformed != field_name {
+            if name != &field_name {
                 field_code += &format!(
                     " = {}(alias=\"{}\")",
                     import(ctxt, Import::Field),
-                    escape_json_string(&transformed)
+                    escape_json_string(name)
                 )
             }
 
@@ -301,20 +300,6 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
-fn apply_transform(ctxt: &Ctxt, field_name: &str, name: &str) -> String {
-    match ctxt.options.property_name_format {
-        Some(StringTransform::LowerCase) => field_name.to_ascii_lowercase(),
-        Some(StringTransform::PascalCase) => type_case(field_name),
-        Some(StringTransform::SnakeCase) => snake_case(field_name),
-        Some(StringTransform::KebabCase) => kebab_case(field_name),
-        Some(StringTransform::UpperCase) => field_name.to_ascii_uppercase(),
-        Some(StringTransform::CamelCase) => lower_camel_case(field_name),
-        Some(StringTransform::ScreamingSnakeCase) => snake_case(field_name).to_ascii_uppercase(),
-        Some(StringTransform::ScreamingKebabCase) => kebab_case(field_name).to_ascii_uppercase(),
-        None => name.to_string(),
-    }
-}
-
 #[cfg(test)]
 mod python_codegen_tests {
     use super::*;
-- 
2.43.0


From 6bb79258acd2307d59b6ac0c513fdf6995298102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 21/50] fix: malformed JsonNaming annotation for kebab-case in
 Kotlin output

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a269a51..cc21ca1 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -325,7 +325,7 @@ fn transform_annotation(ctxt: &mut Ctxt) -> String {
             jackson_naming_annotation(ctxt, "SnakeCaseStrategy")
         }
         (Some(StringTransform::KebabCase), OutputMode::KotlinJackson) => {
-            jackson_naming_annotation(ctxt, "KebabCaseStrategy::class)")
+            jackson_naming_annotation(ctxt, "KebabCaseStrategy")
         }
         _ => "".into(),
     }
-- 
2.43.0


From 36cc11851d4fe6e3f19cd668659bd9a79b00499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 22/50] fix: missing reserved words in Rust and Kotlin keyword
 lists

---
 json_typegen_shared/src/generation/kotlin.rs | 2 +-
 json_typegen_shared/src/generation/rust.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index cc21ca1..a864789 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -144,7 +144,7 @@ fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
 const KOTLIN_KEYWORDS: &[&str] = &[
     "as", "break", "class", "continue", "do", "else", "false", "for", "fun", "if", "in",
     "interface", "is", "null", "object", "package", "return", "super", "this", "throw", "true",
-    "try", "typealias", "val", "var", "when", "while",
+    "try", "typealias", "typeof", "val", "var", "when", "while",
 ];
 
 fn type_or_field_name(
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index fc2e82e..13de0b4 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -154,7 +154,7 @@ const RUST_KEYWORDS: &[&str] = &[
     "macro", "match", "mod", "move", "mut", "offsetof", "override", "priv", "proc", "pub", "pure",
     "ref", "return", "Self", "self", "sizeof", "static", "struct", "super", "trait", "true",
     "type", "typeof", "unsafe", "unsized", "use", "virtual", "where", "while", "yield", "async",
-    "await", "try",
+    "await", "try", "dyn", "gen",
 ];
 
 fn type_or_field_name(
-- 
2.43.0


From 48e99be6aec5b714fa30d9a7edb0691f3ffbed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 23/50] fix: properties named like the collect_additional field

---
 json_typegen_shared/src/generation/kotlin.rs | 3 +++
 json_typegen_shared/src/generation/rust.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index a864789..7073442 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -213,6 +213,9 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additionalFields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 13de0b4..b307ae4 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -237,6 +237,9 @@ fn generate_struct_type(
     };
 
     let mut field_names = HashSet::new();
+    if ctxt.options.collect_additional {
+        field_names.insert("additional_fields".to_string());
+    }
     let mut defs = Vec::new();
 
     let fields: Vec<Code> = field_shapes
-- 
2.43.0


From e565219df9df10cd0f93bb2923ab0219ef7f5b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 24/50] fix: nullable values need Option in Rust even with
 defaults for missing fields

---
 json_typegen_shared/src/generation/rust.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index b307ae4..254bc2a 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -97,11 +97,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("Option<{}>", inner), defs)
-            }
+            (format!("Option<{}>", inner), defs)
         }
     }
 }
-- 
2.43.0


From 581b5243e6091e5255c6c3dfb3c91fe4cf2e0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 25/50] fix: report an error for SQL input without any table

---
 json_typegen_shared/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/lib.rs b/json_typegen_shared/src/lib.rs
index 87ee91b..e50aeb5 100644
--- a/json_typegen_shared/src/lib.rs
+++ b/json_typegen_shared/src/lib.rs
@@ -112,8 +112,14 @@ pub fn codegen(name: &str, input: &str, mut options: Options) -> Result<String,
     let shape = match options.input_mode {
         options::InputMode::Sql => {
             let shapes = sql::sql_to_shape(input).map_err(JTError::SqlParsingError)?;
-            let (_name, shap) = shapes.get(0).unwrap();
-            shap.clone()
+            match shapes.into_iter().next() {
+                Some((_name, shape)) => shape,
+                None => {
+                    return Err(JTError::SqlParsingError(
+                        "expected a CREATE TABLE statement".to_string(),
+                    ));
+                }
+            }
         }
         options::InputMode::Json => infer_from_sample(&source, &options, &hints)?,
     };
-- 
2.43.0


From fdf55dd00016663c4d26a7b909c9bc5bbc5b530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 26/50] fix: an empty JSON pointer token is not an array index

---
 json_typegen_shared/src/hints.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/hints.rs b/json_typegen_shared/src/hints.rs
index 745cc9b..8ce0e16 100644
--- a/json_typegen_shared/src/hints.rs
+++ b/json_typegen_shared/src/hints.rs
@@ -43,7 +43,7 @@ pub struct Hints<'a> {
 }
 
 fn is_index(s: &str) -> bool {
-    s == "-" || s.bytes().all(|b| (b'0'..=b'9').contains(&b))
+    s == "-" || !s.is_empty() && s.bytes().all(|b| (b'0'..=b'9').contains(&b))
 }
 
 impl<'a> Hints<'a> {
-- 
2.43.0


From 30262169bbabe3e82f83418aafb43d719682e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:23 +0000
Subject: [PATCH 27/50] fix: TypeScript interface names starting with a digit

---
 json_typegen_shared/src/generation/typescript.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index d2ba823..99ae67e 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -104,16 +104,10 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
     let name = name.trim();
-    let mut output_name = if let Some(c) = name.chars().next() {
-        if c.is_ascii_digit() {
-            let temp = String::from("n") + name;
-            type_case(&temp)
-        } else {
-            type_case(name)
-        }
-    } else {
-        type_case(name)
-    };
+    let mut output_name = type_case(name);
+    if output_name.starts_with(|c: char| c.is_ascii_digit()) {
+        output_name = type_case(&(String::from("n") + name));
+    }
     if output_name.is_empty() {
         output_name.push_str("GeneratedType");
     }
-- 
2.43.0


From 6e7b8631a7c1c42bfc434dbd6181efb963b9029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:46 +0000
Subject: [PATCH 28/50] fix: support the ~0 and ~1 escapes in JSON pointers

---
 json_typegen_shared/src/hints.rs               | 11 ++++++++++-
 json_typegen_shared/src/inference/jsoninfer.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/json_typegen_shared/src/hints.rs b/json_typegen_shared/src/hints.rs
index 8ce0e16..921740f 100644
--- a/json_typegen_shared/src/hints.rs
+++ b/json_typegen_shared/src/hints.rs
@@ -46,6 +46,15 @@ fn is_index(s: &str) -> bool {
     s == "-" || !s.is_empty() && s.bytes().all(|b| (b'0'..=b'9').contains(&b))
 }
 
+/// Whether a JSON pointer reference token refers to the given property name
+pub fn token_matches_key(token: &str, key: &str) -> bool {
+    if token.contains('~') {
+        token.replace("~1", "/").replace("~0", "~") == key
+    } else {
+        token == key
+    }
+}
+
 impl<'a> Hints<'a> {
     pub fn new() -> Self {
         Hints {
@@ -72,7 +81,7 @@ impl<'a> Hints<'a> {
 
     /// ([/a/b, /a/c, /d/e], "a") -> [/b, /c]
     pub fn step_field(&self, name: &str) -> Hints {
-        self.step(|first| first == "-" || first == name)
+        self.step(|first| first == "-" || token_matches_key(first, name))
     }
 
     /// [/1/b, /a/c, /-/e] -> [/b, /c, /e]
diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index cc5ac21..3839cd8 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -1,5 +1,5 @@
 use crate::Options;
-use crate::hints::{HintType, Hints};
+use crate::hints::{HintType, Hints, token_matches_key};
 use crate::inference::jsoninputerr::JsonInputErr;
 use crate::inference::jsonlex::{JsonLexer, JsonToken};
 use crate::shape::{Shape, common_shape};
@@ -248,7 +248,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
 
                     self.expect_token(JsonToken::Colon)?;
 
-                    if *first_token == "-" || *first_token == key {
+                    if *first_token == "-" || token_matches_key(first_token, &key) {
                         let result = self.unwrap(rest_of_pointer, options, hints)?;
                         folded = optional_common_shape(folded, result);
                     } else {
-- 
2.43.0


From d02e9792cfb2b5ef0e7847b2b572075b4345d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 29/50] fix: generated Rust structs shadowing types used in the
 output

---
 json_typegen_shared/src/generation/rust.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 254bc2a..4cbc35e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -41,6 +41,13 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    // don't let nested types shadow types used in the generated code
+    for used in ["Option", "String", "Vec", "HashMap", "Value"] {
+        if used != name {
+            ctxt.type_names.insert(used.to_string());
+        }
+    }
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
-- 
2.43.0


From b3ccb91dd5136138aaa28057abc34cebc8f09a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 30/50] fix: generated Kotlin classes shadowing types used in
 the output

---
 json_typegen_shared/src/generation/kotlin.rs | 24 ++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 7073442..32c4497 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -30,6 +30,30 @@ pub fn kotlin_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    // don't let nested types shadow types used in the generated code
+    for used in [
+        "Any",
+        "Boolean",
+        "Double",
+        "JsonAnyGetter",
+        "JsonAnySetter",
+        "JsonNaming",
+        "JsonProperty",
+        "List",
+        "Long",
+        "Map",
+        "Pair",
+        "PropertyNamingStrategies",
+        "SerialName",
+        "Serializable",
+        "String",
+        "Triple",
+    ] {
+        if used != name {
+            ctxt.type_names.insert(used.to_string());
+        }
+    }
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
-- 
2.43.0


From 3c4cbfb68ab123e8389415864a0eab93fe1a1b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 31/50] fix: generated Python classes shadowing types used in
 the output

---
 json_typegen_shared/src/generation/python.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 67060ac..4ea19b9 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -58,6 +58,13 @@ pub fn python_types(name: &str, shape: &Shape, options: Options) -> Code {
         ctxt.type_names.insert(name.to_string());
     }
 
+    // don't let nested types shadow types used in the generated code
+    for used in ["Any", "BaseModel", "Field", "Optional"] {
+        if used != name {
+            ctxt.type_names.insert(used.to_string());
+        }
+    }
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
-- 
2.43.0


From 047512b54b219df7185955eba8ff12b8f4c4e3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:03 +0000
Subject: [PATCH 32/50] fix: Rust structs directly containing themselves

---
 json_typegen_shared/src/generation/rust.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 4cbc35e..9053012 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -230,8 +230,6 @@ fn generate_struct_type(
 
     let type_name = type_name(path, &ctxt.type_names);
     ctxt.type_names.insert(type_name.clone());
-    ctxt.created_structs
-        .push((containing_shape.clone(), type_name.clone()));
 
     let visibility = ctxt.options.type_visibility.clone();
     let field_visibility = match ctxt.options.field_visibility {
@@ -282,6 +280,10 @@ fn generate_struct_type(
         })
         .collect();
 
+    // not available for reuse in its own fields, as a struct can not directly contain itself
+    ctxt.created_structs
+        .push((containing_shape.clone(), type_name.clone()));
+
     let mut code = format!("#[derive({})]\n", ctxt.options.derives);
 
     if ctxt.options.deny_unknown_fields {
-- 
2.43.0


From 4b8afbfe637a383839315447060ed7ba60a33f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 33/50] fix: Python classes referring to themselves before they
 are defined

---
 json_typegen_shared/src/generation/python.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 4ea19b9..cef3065 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -249,8 +249,6 @@ fn generate_data_class(
 
     let type_name = type_name(path, &ctxt.type_names);
     ctxt.type_names.insert(type_name.clone());
-    ctxt.created_classes
-        .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
     let mut defs = Vec::new();
@@ -282,6 +280,10 @@ fn generate_data_class(
         })
         .collect();
 
+    // not available for reuse in its own fields, as the name is not defined yet there
+    ctxt.created_classes
+        .push((containing_shape.clone(), type_name.clone()));
+
     let mut code = String::new();
 
     code += &format!(
-- 
2.43.0


From d454a5fd4fa9317aa5f7d3f0eb322ce64f0ed8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 34/50] fix: panic for map hints combined with
 infer_map_threshold

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index 3839cd8..b933859 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -116,6 +116,8 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                     val_type: Box::new(inner),
                 })
             }
+            // already inferred to be a map, based on the number of properties
+            Shape::MapT { .. } => Ok(shape),
             _ => {
                 panic!("Got non-object from infer_object")
             }
-- 
2.43.0


From 39d2ded889606526fd3c05cc22da013c864b9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:04 +0000
Subject: [PATCH 35/50] fix: do not apply hints for other indices to array
 elements after the first 12

---
 json_typegen_shared/src/inference/jsoninfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/inference/jsoninfer.rs b/json_typegen_shared/src/inference/jsoninfer.rs
index b933859..6d504b0 100644
--- a/json_typegen_shared/src/inference/jsoninfer.rs
+++ b/json_typegen_shared/src/inference/jsoninfer.rs
@@ -187,7 +187,7 @@ impl<T: Iterator<Item = Result<JsonToken, JsonInputErr>>> Inference<T> {
                 let shape = self.infer_shape(options, &hints.step_index(len))?;
                 shapes.push(shape);
             } else {
-                let shape = self.infer_shape(options, &hints.step_array())?;
+                let shape = self.infer_shape(options, &hints.step_index(len))?;
                 folded = common_shape(shape, folded);
             }
             len += 1;
-- 
2.43.0


From 7b50b0ecb33396b961a64c9cc8acdaa08ac15d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 36/50] fix: keep opaque types nullable regardless of the order
 of values

---
 json_typegen_shared/src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/shape.rs b/json_typegen_shared/src/shape.rs
index ed0968e..0693dbc 100644
--- a/json_typegen_shared/src/shape.rs
+++ b/json_typegen_shared/src/shape.rs
@@ -81,8 +81,8 @@ pub fn common_shape(a: Shape, b: Shape) -> Shape {
         (Struct { fields: f1 }, Struct { fields: f2 }) => Struct {
             fields: common_field_shapes(f1, f2),
         },
-        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         (a, Nullable(b)) | (Nullable(b), a) => common_shape(a, *b).into_nullable(),
+        (Opaque(t), _) | (_, Opaque(t)) => Opaque(t),
         _ => Any,
     }
 }
-- 
2.43.0


From 3d2496fcc0c68cb89951f715df9cf637461d3d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:33 +0000
Subject: [PATCH 37/50] fix: quotes in the property names of quoted SQL columns

---
 json_typegen_shared/src/sql.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d16fa1d..d26ffb4 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -15,7 +15,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.to_string(), shape_for_column(column))
+                            (column.name.value.clone(), shape_for_column(column))
                         })
                         .collect(),
                 },
-- 
2.43.0


From 6d2a0fcd41638e21ff1a2a1c96342fed4e601f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 38/50] fix: SQL primary key columns are not nullable

---
 json_typegen_shared/src/sql.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index d26ffb4..889bc8c 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -83,7 +83,12 @@ fn shape_for_column(column: &ColumnDef) -> Shape {
     let nullable = !column
         .options
         .iter()
-        .any(|option| matches!(option.option, ColumnOption::NotNull));
+        .any(|option| {
+            matches!(
+                option.option,
+                ColumnOption::NotNull | ColumnOption::Unique { is_primary: true }
+            )
+        });
     if nullable {
         base_shape.into_nullable()
     } else {
-- 
2.43.0


From e7d8953912b381690012b3d2e047080e1903dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:07 +0000
Subject: [PATCH 39/50] fix: unused derive imports in Rust output without
 structs

---
 json_typegen_shared/src/generation/rust.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/json_typegen_shared/src/generation/rust.rs b/json_typegen_shared/src/generation/rust.rs
index 9053012..e03613e 100644
--- a/json_typegen_shared/src/generation/rust.rs
+++ b/json_typegen_shared/src/generation/rust.rs
@@ -48,9 +48,16 @@ pub fn rust_types(name: &str, shape: &Shape, options: Options) -> Code {
         }
     }
 
+    // only needed if there is a struct to derive them for
+    let derive_imports = std::mem::take(&mut ctxt.imports);
+
     let (ident, code) = type_from_shape(&mut ctxt, name, shape);
     let mut code = code.unwrap_or_default();
 
+    if !ctxt.created_structs.is_empty() {
+        ctxt.imports.extend(derive_imports);
+    }
+
     if ident != name {
         code = format!(
             "{} type {} = {};\n\n{}",
-- 
2.43.0


From 4ebe569d91ffc426c0a9c2b21efe3320a69e5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 40/50] fix: tokens after options given as a string are not
 silently ignored

---
 json_typegen_shared/src/parse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/parse.rs b/json_typegen_shared/src/parse.rs
index c7ac428..78ee309 100644
--- a/json_typegen_shared/src/parse.rs
+++ b/json_typegen_shared/src/parse.rs
@@ -90,7 +90,12 @@ pub fn macro_input(input: &str) -> Result<MacroInput, String> {
     )?;
 
     let options = match string(input) {
-        IResult::Done(_, lit) => options_with_defaults(&lit.value, default_options)?,
+        IResult::Done(input, lit) => {
+            if !input.trim().is_empty() {
+                fail!("Expected no further tokens after options", input);
+            }
+            options_with_defaults(&lit.value, default_options)?
+        }
         IResult::Error => options_with_defaults(input, default_options)?,
     };
 
-- 
2.43.0


From 99b0121afed3d4dbe6a4b676700c2d62d1006227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:05 +0000
Subject: [PATCH 41/50] fix: columns of a table level primary key are not
 nullable

---
 json_typegen_shared/src/sql.rs | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/json_typegen_shared/src/sql.rs b/json_typegen_shared/src/sql.rs
index 889bc8c..48837a7 100644
--- a/json_typegen_shared/src/sql.rs
+++ b/json_typegen_shared/src/sql.rs
@@ -1,5 +1,5 @@
 use crate::Shape;
-use sqlparser::ast::{ColumnDef, ColumnOption, DataType, Statement};
+use sqlparser::ast::{ColumnDef, ColumnOption, DataType, Statement, TableConstraint};
 use sqlparser::dialect::GenericDialect;
 use sqlparser::parser::Parser;
 
@@ -9,13 +9,21 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
     Ok(ast
         .iter()
         .filter_map(|stmt| match stmt {
-            Statement::CreateTable { name, columns, .. } => Some((
+            Statement::CreateTable {
+                name,
+                columns,
+                constraints,
+                ..
+            } => Some((
                 name.to_string(),
                 Shape::Struct {
                     fields: columns
                         .iter()
                         .map(|column: &ColumnDef| {
-                            (column.name.value.clone(), shape_for_column(column))
+                            (
+                                column.name.value.clone(),
+                                shape_for_column(column, constraints),
+                            )
                         })
                         .collect(),
                 },
@@ -25,7 +33,7 @@ pub fn sql_to_shape(input: &str) -> Result<Vec<(String, Shape)>, String> {
         .collect())
 }
 
-fn shape_for_column(column: &ColumnDef) -> Shape {
+fn shape_for_column(column: &ColumnDef, constraints: &[TableConstraint]) -> Shape {
     let base_shape = match column.data_type {
         DataType::Character(_) |
         DataType::Char(_) |
@@ -88,7 +96,10 @@ fn shape_for_column(column: &ColumnDef) -> Shape {
                 option.option,
                 ColumnOption::NotNull | ColumnOption::Unique { is_primary: true }
             )
-        });
+        })
+        && !constraints
+            .iter()
+            .any(|constraint| is_primary_key_with(constraint, column));
     if nullable {
         base_shape.into_nullable()
     } else {
@@ -96,6 +107,19 @@ fn shape_for_column(column: &ColumnDef) -> Shape {
     }
 }
 
+fn is_primary_key_with(constraint: &TableConstraint, column: &ColumnDef) -> bool {
+    match constraint {
+        TableConstraint::Unique {
+            columns,
+            is_primary: true,
+            ..
+        } => columns
+            .iter()
+            .any(|key| key.value.eq_ignore_ascii_case(&column.name.value)),
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e7613168c1fccb642138e8aa931328e992b6f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 42/50] fix: the zod output mode is available in the CLI

---
 json_typegen_cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c6b2664..c5a4837 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -54,6 +54,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
                     "python",
                     "json_schema",
                     "shape",
+                    "zod",
                 ])
                 .help("What to output.")
                 .takes_value(true),
-- 
2.43.0


From 845ec517eba407c2326cf90234ded01e9eb69f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 43/50] fix: do not truncate the CLI output file when no code
 is generated

---
 json_typegen_cli/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/json_typegen_cli/src/main.rs b/json_typegen_cli/src/main.rs
index c5a4837..ec35429 100644
--- a/json_typegen_cli/src/main.rs
+++ b/json_typegen_cli/src/main.rs
@@ -85,7 +85,7 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             options.output_mode = OutputMode::parse(output_mode).ok_or("Invalid output mode")?;
         }
         codegen(name, &input, options)
-    };
+    }?;
 
     if let Some(filename) = matches.value_of("output") {
         let mut file = OpenOptions::new()
@@ -95,9 +95,9 @@ fn main_with_result() -> Result<(), Box<dyn std::error::Error>> {
             .truncate(true)
             .open(filename)?;
 
-        file.write_all(code?.as_bytes())?;
+        file.write_all(code.as_bytes())?;
     } else {
-        print!("{}", code?);
+        print!("{}", code);
     }
 
     Ok(())
-- 
2.43.0


From 53d31c534f1847dc16d1dd3609fe9e0c0a16380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 44/50] fix: quotes followed by # in error messages of the
 procedural macro

---
 json_typegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_typegen/src/lib.rs b/json_typegen/src/lib.rs
index 9f6306a..b62ff02 100644
--- a/json_typegen/src/lib.rs
+++ b/json_typegen/src/lib.rs
@@ -71,7 +71,7 @@ pub fn json_typegen(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
         Ok(code) => code,
         Err(e) => {
             let message = display_error_with_causes(&e);
-            format!(r##"compile_error!(r#"{}"#);"##, message)
+            format!("compile_error!({:?});", message)
         }
     }
     .parse()
-- 
2.43.0


From 502d60176e1584b992b4984b5edfd900f44a548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 45/50] fix: use_default_for_missing_fields is specific to
 Rust, other outputs lost null

---
 json_typegen_shared/src/generation/kotlin.rs     | 12 ++----------
 json_typegen_shared/src/generation/python.rs     | 16 ++++------------
 .../src/generation/typescript_type_alias.rs      |  6 +-----
 json_typegen_shared/src/generation/zod_schema.rs |  6 +-----
 4 files changed, 8 insertions(+), 32 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 32c4497..191fb55 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -99,19 +99,11 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         Opaque(t) => (t.clone(), None),
         Optional(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("{}?", inner), defs)
-            }
+            (format!("{}?", inner), defs)
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("{}?", inner), defs)
-            }
+            (format!("{}?", inner), defs)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index cef3065..250056d 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -127,21 +127,13 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         Opaque(t) => (t.clone(), None),
         Optional(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                let optional = import(ctxt, Import::Optional);
-                (format!("{}[{}]", optional, inner), defs)
-            }
+            let optional = import(ctxt, Import::Optional);
+            (format!("{}[{}]", optional, inner), defs)
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                let optional = import(ctxt, Import::Optional);
-                (format!("{}[{}]", optional, inner), defs)
-            }
+            let optional = import(ctxt, Import::Optional);
+            (format!("{}[{}]", optional, inner), defs)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index be043d1..2ebea88 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -67,11 +67,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{} | null", inner)
-            }
+            format!("{} | null", inner)
         }
     }
 }
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 8835401..5755a59 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -69,11 +69,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{}.nullable()", inner)
-            }
+            format!("{}.nullable()", inner)
         }
     }
 }
-- 
2.43.0


From 564f0a80448147526e5e4dd4063a86b73b674b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 46/50] fix: Jackson annotations for additional fields in
 kotlinx.serialization output

---
 json_typegen_shared/src/generation/kotlin.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/json_typegen_shared/src/generation/kotlin.rs b/json_typegen_shared/src/generation/kotlin.rs
index 191fb55..f02142b 100644
--- a/json_typegen_shared/src/generation/kotlin.rs
+++ b/json_typegen_shared/src/generation/kotlin.rs
@@ -229,7 +229,7 @@ fn generate_data_class(
         .push((containing_shape.clone(), type_name.clone()));
 
     let mut field_names = HashSet::new();
-    if ctxt.options.collect_additional {
+    if collect_additional(ctxt) {
         field_names.insert("additionalFields".to_string());
     }
     let mut defs = Vec::new();
@@ -280,7 +280,7 @@ fn generate_data_class(
         code += &fields.join(",\n");
         code += ",\n";
     }
-    if ctxt.options.collect_additional {
+    if collect_additional(ctxt) {
         code += &format!(
             "    @{}\n    @get:{}\n    val additionalFields: Map<String, Any> = mutableMapOf(),\n",
             import(ctxt, "com.fasterxml.jackson.annotation.JsonAnySetter"),
@@ -297,6 +297,11 @@ fn generate_data_class(
     (type_name, Some(code))
 }
 
+// kotlinx.serialization has no counterpart to these annotations of Jackson
+fn collect_additional(ctxt: &Ctxt) -> bool {
+    ctxt.options.collect_additional && ctxt.options.output_mode == OutputMode::KotlinJackson
+}
+
 fn escape_string(s: &str) -> String {
     // `$` would start a string template
     escape_json_string(s).replace('$', "\\$")
-- 
2.43.0


From 60567781c2dc93a3b0560e9bac367ca6e587d35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 47/50] fix: aliased Python fields hiding types used in their
 class

---
 json_typegen_shared/src/generation/python.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 250056d..824a6a8 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -171,7 +171,12 @@ fn generate_tuple_type(ctxt: &mut Ctxt, path: &str, shapes: &[Shape]) -> (Ident,
 }
 
 fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "field", snake_case)
+    let field_name = type_or_field_name(name, used_names, "field", snake_case);
+    // aliased fields are assigned to, which would hide anything of the same name in the class
+    if field_name != name && NAMES_IN_ANNOTATIONS.contains(&&*field_name) {
+        return type_or_field_name(&(field_name + "_field"), used_names, "field", snake_case);
+    }
+    field_name
 }
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
@@ -188,6 +193,10 @@ const PYTHON_KEYWORDS: &[&str] = &[
     "raise", "return", "try", "while", "with", "yield",
 ];
 
+const NAMES_IN_ANNOTATIONS: &[&str] = &[
+    "bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
-- 
2.43.0


From 0bca1fc3c464a397dce25ca68a3ee79d2b6caf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:47 +0000
Subject: [PATCH 48/50] fix: Python fields with the names of BaseModel
 attributes

---
 json_typegen_shared/src/generation/python.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 824a6a8..3b8f880 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -197,6 +197,17 @@ const NAMES_IN_ANNOTATIONS: &[&str] = &[
     "bool", "dict", "float", "int", "list", "pydantic", "str", "tuple", "typing",
 ];
 
+// attributes of BaseModel, in pydantic 1 and 2, that a field may not have the name of
+#[rustfmt::skip]
+const BASE_MODEL_ATTRIBUTES: &[&str] = &[
+    "construct", "copy", "dict", "from_orm", "json", "parse_file", "parse_obj", "parse_raw",
+    "schema", "schema_json", "update_forward_refs", "validate",
+    "model_computed_fields", "model_config", "model_construct", "model_copy", "model_dump",
+    "model_dump_json", "model_extra", "model_fields", "model_fields_set", "model_json_schema",
+    "model_parametrized_name", "model_post_init", "model_rebuild", "model_validate",
+    "model_validate_json", "model_validate_strings",
+];
+
 fn type_or_field_name(
     name: &str,
     used_names: &HashSet<String>,
@@ -205,7 +216,7 @@ fn type_or_field_name(
 ) -> Ident {
     let name = name.trim();
     let mut output_name = case_fn(name);
-    if PYTHON_KEYWORDS.contains(&&*output_name) {
+    if PYTHON_KEYWORDS.contains(&&*output_name) || BASE_MODEL_ATTRIBUTES.contains(&&*output_name) {
         output_name.push_str("_field");
     }
     if output_name.is_empty() {
-- 
2.43.0


From 34d1b9df346a6173f3f1b3df36034a4559f40f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 49/50] fix: use_default_for_missing_fields made zod properties
 required

---
 json_typegen_shared/src/generation/typescript.rs            | 6 +-----
 json_typegen_shared/src/generation/typescript_type_alias.rs | 6 +-----
 json_typegen_shared/src/generation/zod_schema.rs            | 6 +-----
 3 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/json_typegen_shared/src/generation/typescript.rs b/json_typegen_shared/src/generation/typescript.rs
index 99ae67e..0875aae 100644
--- a/json_typegen_shared/src/generation/typescript.rs
+++ b/json_typegen_shared/src/generation/typescript.rs
@@ -59,11 +59,7 @@ fn type_from_shape(ctxt: &mut Ctxt, path: &str, shape: &Shape) -> (Ident, Option
         Opaque(t) => (t.clone(), None),
         Optional(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
-            if ctxt.options.use_default_for_missing_fields {
-                (inner, defs)
-            } else {
-                (format!("{} | undefined", inner), defs)
-            }
+            (format!("{} | undefined", inner), defs)
         }
         Nullable(e) => {
             let (inner, defs) = type_from_shape(ctxt, path, e);
diff --git a/json_typegen_shared/src/generation/typescript_type_alias.rs b/json_typegen_shared/src/generation/typescript_type_alias.rs
index 2ebea88..8a0f69d 100644
--- a/json_typegen_shared/src/generation/typescript_type_alias.rs
+++ b/json_typegen_shared/src/generation/typescript_type_alias.rs
@@ -59,11 +59,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         Opaque(t) => t.clone(),
         Optional(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{} | undefined", inner)
-            }
+            format!("{} | undefined", inner)
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
diff --git a/json_typegen_shared/src/generation/zod_schema.rs b/json_typegen_shared/src/generation/zod_schema.rs
index 5755a59..f0382ad 100644
--- a/json_typegen_shared/src/generation/zod_schema.rs
+++ b/json_typegen_shared/src/generation/zod_schema.rs
@@ -61,11 +61,7 @@ fn type_from_shape(ctxt: &mut Ctxt, shape: &Shape) -> Code {
         Opaque(t) => t.clone(),
         Optional(e) => {
             let inner = type_from_shape(ctxt, e);
-            if ctxt.options.use_default_for_missing_fields {
-                inner
-            } else {
-                format!("{}.optional()", inner)
-            }
+            format!("{}.optional()", inner)
         }
         Nullable(e) => {
             let inner = type_from_shape(ctxt, e);
-- 
2.43.0


From ca1e9ae1cc30d31cb0c0172a8d0afe02538a4d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 50/50] fix: Python fields hiding classes named after a number

---
 json_typegen_shared/src/generation/python.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/json_typegen_shared/src/generation/python.rs b/json_typegen_shared/src/generation/python.rs
index 3b8f880..3e21227 100644
--- a/json_typegen_shared/src/generation/python.rs
+++ b/json_typegen_shared/src/generation/python.rs
@@ -180,7 +180,16 @@ fn field_name(name: &str, used_names: &HashSet<String>) -> Ident {
 }
 
 fn type_name(name: &str, used_names: &HashSet<String>) -> Ident {
-    type_or_field_name(name, used_names, "GeneratedType", type_case)
+    type_or_field_name(name, used_names, "GeneratedType", class_case)
+}
+
+fn class_case(name: &str) -> String {
+    let name = type_case(name);
+    // not starting like a field, as an aliased field of the same name would hide the class
+    if name.starts_with(|c: char| c.is_ascii_digit()) {
+        return String::from("N") + &name;
+    }
+    name
 }
 
 // https://docs.python.org/3/reference/lexical_analysis.html#keywords
-- 
2.43.0

