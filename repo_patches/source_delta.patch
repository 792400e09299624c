From 1ae3b74f9e2a70e378e81c55e776e951ae86cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 01/11] fix: decode 256-bit signed integers to Primitive::I256

The plain decoder returned Primitive::U256 for I256 types, unlike the tracing decoder.
---
 src/scale_impls/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index fa3d533..f9102c7 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -287,7 +287,7 @@ where
         type_id: R::TypeId,
     ) -> Result<Self::Value<'_, 'info>, Self::Error> {
         Ok(Value {
-            value: ValueDef::Primitive(Primitive::U256(*value)),
+            value: ValueDef::Primitive(Primitive::I256(*value)),
             context: F::context_from_type_id(&type_id),
         })
     }
-- 
2.43.0


From bf1ce38a01bc330e3c3d9936f0930e1ebc518f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 02/11] fix: wind forward by chars consumed, not bytes, after a
 custom parser

A custom parser that consumed multi-byte characters caused the parser to skip
over additional input following the parsed value.
---
 src/string_impls/from_string.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 77f89e6..6b13306 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -236,9 +236,7 @@ fn parse_value(
                         // Wind our StrTokens forward to take into account anything that
                         // was consumed. We do this rather than replacing it because we want
                         // to preserve the full string and offsets.
-                        for _ in cursor.len()..s.len() {
-                            t.next();
-                        }
+                        while t.remaining().len() > cursor.len() && t.next().is_some() {}
                         return Ok(value);
                     }
                     Err(e) => {
-- 
2.43.0


From f2bbaae0aa1d4e4f95767573bef268bed3f64aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 03/11] fix: quote variant names which would be parsed back as
 a bool

A variant whose name starts with "true" or "false" was printed in a form that
parses back to a bool (leaving the rest of the variant unparsed).
---
 src/string_impls/to_string.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/to_string.rs b/src/string_impls/to_string.rs
index 060afba..ff2ad8a 100644
--- a/src/string_impls/to_string.rs
+++ b/src/string_impls/to_string.rs
@@ -431,7 +431,9 @@ fn fmt_variant<T, W: core::fmt::Write>(
     v: &Variant<T>,
     f: &mut Formatter<T, W>,
 ) -> core::fmt::Result {
-    if is_ident(&v.name) {
+    // Names starting with "true" or "false" are valid idents, but would be parsed back as bools.
+    let looks_like_bool = v.name.starts_with("true") || v.name.starts_with("false");
+    if is_ident(&v.name) && !looks_like_bool {
         f.write_str(&v.name)?;
     } else {
         // If the variant name isn't a valid ident, we parse it into
-- 
2.43.0


From 92dd4727684762a1e413b144cceb41ccea9d8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 04/11] fix: don't allocate based on a claimed sequence length
 when decoding

A few bytes claiming to be a huge sequence would panic (capacity overflow) or abort
the process, instead of returning a decode error. The tracing decoder had a limit of
100M entries, but would still allocate gigabytes for any length below that.
---
 src/scale_impls/decode.rs                  | 4 +++-
 src/scale_impls/tracing_decoder/visitor.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/decode.rs b/src/scale_impls/decode.rs
index f9102c7..9756d02 100644
--- a/src/scale_impls/decode.rs
+++ b/src/scale_impls/decode.rs
@@ -75,7 +75,9 @@ where
 // Sequences, Tuples and Arrays all have the same methods, so decode them in the same way:
 macro_rules! to_unnamed_composite {
     ($value:ident, $type_id:ident) => {{
-        let mut vals = Vec::with_capacity($value.remaining());
+        // The claimed length may be bogus, so don't allocate more entries up front than there are bytes left.
+        let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+        let mut vals = Vec::with_capacity(capacity);
         while let Some(val) = $value.decode_item(DecodeValueVisitor::<R, F>::new()) {
             let val = val?;
             vals.push(val);
diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index e80e229..d7bd2dd 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -69,7 +69,9 @@ macro_rules! to_unnamed_composite {
                 return Err(err);
             }
 
-            let mut vals = Vec::with_capacity($value.remaining());
+            // The claimed length may be bogus, so don't allocate more entries up front than there are bytes left.
+            let capacity = $value.remaining().min($value.bytes_from_undecoded().len());
+            let mut vals = Vec::with_capacity(capacity);
             while let Some(val) = $value.decode_item($self.at_idx(idx)) {
                 match val {
                     Err(e) => {
-- 
2.43.0


From 2cf5d98996f33370a71ff384ed6d9854b8cfb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 05/11] fix: encode values with nested newtype wrappers as-is

A Value whose structure matched the type exactly could encode to the wrong bytes if
the type was two or more newtype wrappers around a sequence, because all of the wrappers
in the type but only one wrapper in the Value were skipped. For instance, decoding an empty
`A(B(Vec<Vec<u8>>))` to a Value and encoding it again gave back a vector of length 1.
---
 src/scale_impls/encode.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index 5dcebee..df96126 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -96,6 +96,15 @@ fn encode_composite<T, R: TypeResolver>(
         // context to hand to visitor functions:
         let ctx = (type_id.clone(), out);
 
+        // If the Value and type are both newtype-like (ie exactly one unnamed entry) then they line
+        // up, and so we step into both of them. `EncodeComposite` would instead skip through _all_
+        // of the newtype wrappers in the type but only one in the Value, leading to the remaining
+        // wrappers in the Value being mistaken for eg sequences.
+        let only_unnamed_value = match value {
+            Composite::Unnamed(vals) if vals.len() == 1 => vals.first(),
+            _ => None,
+        };
+
         let visit_composite_or_tuple =
             |(type_id, out): (R::TypeId, &mut Vec<u8>)| -> Result<(), Error> {
                 match value {
@@ -130,8 +139,20 @@ fn encode_composite<T, R: TypeResolver>(
                 })),
             }
         })
-        .visit_composite(|ctx, _, _| visit_composite_or_tuple(ctx))
-        .visit_tuple(|ctx, _| visit_composite_or_tuple(ctx))
+        .visit_composite(|ctx, _, fields| match (only_unnamed_value, fields.len()) {
+            (Some(val), 1) => match fields.next().expect("has 1 item; qed;") {
+                field if field.name.is_none() => val.encode_as_type_to(field.id, types, ctx.1),
+                _ => visit_composite_or_tuple(ctx),
+            },
+            _ => visit_composite_or_tuple(ctx),
+        })
+        .visit_tuple(|ctx, fields| match (only_unnamed_value, fields.len()) {
+            (Some(val), 1) => {
+                let field_id = fields.next().expect("has 1 item; qed;");
+                val.encode_as_type_to(field_id, types, ctx.1)
+            }
+            _ => visit_composite_or_tuple(ctx),
+        })
         .visit_sequence(|(_, out), _path, type_id| {
             // sequences start with compact encoded length:
             Compact(value.len() as u32).encode_to(out);
-- 
2.43.0


From c5f81d82ef7d2d2610c352704768b6abab76cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 06/11] fix: avoid exponential work when failing to encode
 nested single-value composites

If the type given was not some newtype or sequence, each single-value composite in a Value
was unwrapped twice before giving up, and so the time taken to return an error doubled with
each layer of nesting.
---
 src/scale_impls/encode.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/scale_impls/encode.rs b/src/scale_impls/encode.rs
index df96126..64bde98 100644
--- a/src/scale_impls/encode.rs
+++ b/src/scale_impls/encode.rs
@@ -16,6 +16,7 @@
 use crate::prelude::*;
 use crate::value_type::{Composite, Primitive, Value, ValueDef, Variant};
 use codec::{Compact, Encode};
+use core::cell::Cell;
 use scale_bits::Bits;
 use scale_decode::TypeResolver;
 use scale_encode::error::ErrorKind;
@@ -92,7 +93,10 @@ fn encode_composite<T, R: TypeResolver>(
         type_id: R::TypeId,
         types: &R,
         out: &mut Vec<u8>,
+        did_peel: &Cell<bool>,
     ) -> Result<(), Error> {
+        did_peel.set(false);
+
         // context to hand to visitor functions:
         let ctx = (type_id.clone(), out);
 
@@ -131,7 +135,10 @@ fn encode_composite<T, R: TypeResolver>(
             let mut values = value.values();
             match (values.next(), values.next()) {
                 // Exactly one value:
-                (Some(value), None) => value.encode_as_type_to(type_id, types, out),
+                (Some(value), None) => {
+                    did_peel.set(true);
+                    value.encode_as_type_to(type_id, types, out)
+                }
                 // Some other number of values:
                 _ => Err(Error::new(ErrorKind::WrongShape {
                     actual: Kind::Tuple,
@@ -144,14 +151,22 @@ fn encode_composite<T, R: TypeResolver>(
                 field if field.name.is_none() => val.encode_as_type_to(field.id, types, ctx.1),
                 _ => visit_composite_or_tuple(ctx),
             },
-            _ => visit_composite_or_tuple(ctx),
+            _ => {
+                // In this case, `EncodeComposite` tries to encode the only value.
+                did_peel.set(only_unnamed_value.is_some());
+                visit_composite_or_tuple(ctx)
+            }
         })
         .visit_tuple(|ctx, fields| match (only_unnamed_value, fields.len()) {
             (Some(val), 1) => {
                 let field_id = fields.next().expect("has 1 item; qed;");
                 val.encode_as_type_to(field_id, types, ctx.1)
             }
-            _ => visit_composite_or_tuple(ctx),
+            _ => {
+                // In this case, `EncodeComposite` tries to encode the only value.
+                did_peel.set(value.len() == 1);
+                visit_composite_or_tuple(ctx)
+            }
         })
         .visit_sequence(|(_, out), _path, type_id| {
             // sequences start with compact encoded length:
@@ -196,13 +211,18 @@ fn encode_composite<T, R: TypeResolver>(
         }
     }
 
+    // Did the last attempt to encode as-is already try to encode the only value in our composite
+    // to the type given? If so, we avoid trying again below; doing so at each level would take an
+    // exponential amount of time given nested single-value composites.
+    let did_peel = Cell::new(false);
+
     // First, try and encode everything as-is, only writing to the output
     // bytes if the encoding is actually successful. This means that if the
     // Value provided matches the structure of the TypeInfo exactly, things
     // should always work.
     let original_error = {
         let mut temp_out = Vec::new();
-        match do_encode_composite(value, type_id.clone(), types, &mut temp_out) {
+        match do_encode_composite(value, type_id.clone(), types, &mut temp_out, &did_peel) {
             Ok(()) => {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
@@ -220,7 +240,8 @@ fn encode_composite<T, R: TypeResolver>(
             find_single_entry_with_same_repr::<R>(type_id.clone(), types);
         if inner_is_different {
             let mut temp_out = Vec::new();
-            if let Ok(()) = do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out)
+            if let Ok(()) =
+                do_encode_composite(value, inner_type_id.clone(), types, &mut temp_out, &did_peel)
             {
                 out.extend_from_slice(&temp_out);
                 return Ok(());
@@ -234,7 +255,7 @@ fn encode_composite<T, R: TypeResolver>(
     // encoded. The inner `.encode_as_type_to` will loop around and peel off another layer
     // etc if no luck. Ultimately we'll just return the original error below if this all
     // fails.
-    if let Some(value) = get_only_value_from_composite(value) {
+    if let (Some(value), false) = (get_only_value_from_composite(value), did_peel.get()) {
         let mut temp_out = Vec::new();
         if let Ok(()) = value.encode_as_type_to(type_id.clone(), types, &mut temp_out) {
             out.extend_from_slice(&temp_out);
-- 
2.43.0


From e6c9d14d4980223d5bafa1b21782cb0946c993f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:31 +0000
Subject: [PATCH 07/11] fix: include variant names in the path reported by the
 tracing decoder

---
 src/scale_impls/tracing_decoder/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/visitor.rs b/src/scale_impls/tracing_decoder/visitor.rs
index d7bd2dd..12c6d24 100644
--- a/src/scale_impls/tracing_decoder/visitor.rs
+++ b/src/scale_impls/tracing_decoder/visitor.rs
@@ -285,7 +285,7 @@ where
     ) -> Result<Self::Value<'scale, 'resolver>, Self::Error> {
         let variant_name = value.name();
         let path = self.path.at_variant(variant_name.to_owned());
-        let values = visit_composite(&self, value.fields());
+        let values = visit_composite(&self.at_path(path.clone()), value.fields());
         match values {
             Err(e) => {
                 let merged_error = e.with_outer_context(
-- 
2.43.0


From a3e495bade67e806db16d9f55f76848288f5eadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 08/11] fix: hand every custom parser the whole remaining input

A parser that moved its cursor and then declined caused the parsers after it to
be handed a shorter input, and to wind to the wrong place.
---
 src/string_impls/from_string.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/string_impls/from_string.rs b/src/string_impls/from_string.rs
index 6b13306..fce2b42 100644
--- a/src/string_impls/from_string.rs
+++ b/src/string_impls/from_string.rs
@@ -227,9 +227,10 @@ fn parse_value(
     if !custom_parsers.is_empty() {
         let s = t.remaining();
         let start_offset = t.offset();
-        let cursor = &mut &*s;
 
         for parser in custom_parsers {
+            // Parsers that decline may have moved their cursor; always begin with a fresh one.
+            let cursor = &mut &*s;
             if let Some(res) = parser(cursor) {
                 match res {
                     Ok(value) => {
-- 
2.43.0


From d17ed48242a6ca099b2defe015d2376911bcff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 09/11] fix: show tracing errors when a 256-bit integer was
 decoded before the failure

---
 src/scale_impls/tracing_decoder/error.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/scale_impls/tracing_decoder/error.rs b/src/scale_impls/tracing_decoder/error.rs
index a7f784f..88ccdbd 100644
--- a/src/scale_impls/tracing_decoder/error.rs
+++ b/src/scale_impls/tracing_decoder/error.rs
@@ -17,7 +17,7 @@ use super::path::Path;
 use crate::prelude::*;
 use crate::scale::DecodeError;
 use crate::string_impls::format_hex;
-use crate::Value;
+use crate::{Primitive, Value, ValueDef};
 use core::fmt::Write;
 
 /// An error encountered when decoding some bytes using the [`crate::scale::tracing`] module.
@@ -133,5 +133,18 @@ fn display_value_with_typeid<Id: core::fmt::Debug>(
             write!(writer, "{type_id:?}")
         })
         .add_custom_formatter(|value, writer| format_hex(value, writer))
+        // 256 bit integers have no textual form of their own; show their bytes
+        // so that the error can be displayed no matter what was decoded.
+        .add_custom_formatter(|value, writer| match &value.value {
+            ValueDef::Primitive(Primitive::U256(bytes) | Primitive::I256(bytes)) => {
+                Some(write_hex(bytes, writer))
+            }
+            _ => None,
+        })
         .write(value, f)
 }
+
+fn write_hex(bytes: &[u8], writer: &mut impl Write) -> core::fmt::Result {
+    writer.write_str("0x")?;
+    bytes.iter().try_for_each(|byte| write!(writer, "{byte:02X}"))
+}
-- 
2.43.0


From 629ff048b33fbde042133dd8d00d5739cf2c26a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 10/11] fix: don't trust size hints when deserializing
 composites

The size hint of a sequence or map was allocated up front, so a format which announces an absurd
length (which may come straight from its input) made deserializing panic or abort.
---
 src/serde_impls/bitvec_helpers.rs |  4 ++--
 src/serde_impls/deserialize.rs    | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/serde_impls/bitvec_helpers.rs b/src/serde_impls/bitvec_helpers.rs
index f3bec60..71a4253 100644
--- a/src/serde_impls/bitvec_helpers.rs
+++ b/src/serde_impls/bitvec_helpers.rs
@@ -22,7 +22,7 @@
 //! it's up to the visitor to do its best to accept what it's handed, or reject it if it's simply
 //! not going to work out.
 
-use super::deserializer::DeserializerError;
+use super::{deserialize::cautious_capacity, deserializer::DeserializerError};
 use crate::prelude::*;
 use crate::{BitSequence, Composite, ValueDef};
 use serde::{
@@ -88,7 +88,7 @@ impl<'de> Visitor<'de> for MapOrBitSeqVisitor {
         }
 
         // That didn't work, so decode the first value as a Value<()> instead:
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         values.push((first_key, map.next_value()?));
 
         // .. and then decode all of the other key-value pairs and add them too:
diff --git a/src/serde_impls/deserialize.rs b/src/serde_impls/deserialize.rs
index d6ad924..743bb2f 100644
--- a/src/serde_impls/deserialize.rs
+++ b/src/serde_impls/deserialize.rs
@@ -83,6 +83,12 @@ impl<'de> Deserialize<'de> for Variant<()> {
     }
 }
 
+/// How much to allocate up front given the size hint of some sequence or map. The hint is not to be
+/// relied on (it may come straight from the input being deserialized), so don't allocate too much.
+pub(super) fn cautious_capacity(size_hint: Option<usize>) -> usize {
+    size_hint.unwrap_or(0).min(1024)
+}
+
 struct PrimitiveVisitor;
 
 macro_rules! visit_prim {
@@ -191,7 +197,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::SeqAccess<'de>,
     {
-        let mut values = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(seq.size_hint()));
         while let Some(value) = seq.next_element()? {
             values.push(value);
         }
@@ -202,7 +208,7 @@ impl<'de> Visitor<'de> for CompositeVisitor {
     where
         A: serde::de::MapAccess<'de>,
     {
-        let mut values = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut values = Vec::with_capacity(cautious_capacity(map.size_hint()));
         while let Some(key_val) = map.next_entry()? {
             values.push(key_val);
         }
-- 
2.43.0


From 3ed2897d24242a3057374a2240b121e95905d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:24 +0000
Subject: [PATCH 11/11] fix: deserialize integers that fit as 64 bit ones, so
 that buffering types accept them

---
 src/serde_impls/deserializer.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/serde_impls/deserializer.rs b/src/serde_impls/deserializer.rs
index d25c600..0c2c5b3 100644
--- a/src/serde_impls/deserializer.rs
+++ b/src/serde_impls/deserializer.rs
@@ -753,9 +753,17 @@ impl<'de> Deserializer<'de> for Primitive {
             Primitive::Bool(v) => visitor.visit_bool(v),
             Primitive::Char(v) => visitor.visit_char(v),
             Primitive::String(v) => visitor.visit_string(v),
-            Primitive::U128(v) => visitor.visit_u128(v),
+            // Numbers that fit into 64 bits are handed over as such, because types that buffer what
+            // they are given (eg flattened fields, or untagged enums) don't accept 128 bit integers.
+            Primitive::U128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_u64(v),
+                Err(_) => visitor.visit_u128(v),
+            },
             Primitive::U256(v) => visitor.visit_bytes(&v),
-            Primitive::I128(v) => visitor.visit_i128(v),
+            Primitive::I128(v) => match v.try_into() {
+                Ok(v) => visitor.visit_i64(v),
+                Err(_) => visitor.visit_i128(v),
+            },
             Primitive::I256(v) => visitor.visit_bytes(&v),
         }
     }
-- 
2.43.0

