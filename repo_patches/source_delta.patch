From 87ab6808a5c788f9b41efd586f3daf5548596916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 01/13] fix: report too-short arrays when decoding tuples
 instead of panicking

---
 src/decode.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decode.rs b/src/decode.rs
index 4d95335..9965894 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -47,8 +47,11 @@ impl Decode for Tuple {
 
     fn try_from_cbor_value(value: Value) -> Result<Self, DecodeError> {
         match value {
-            Value::Array(mut values) => {
-                Ok((for_tuples!( #( Tuple::try_from_cbor_value(values.remove(0))? ),* )))
+            Value::Array(values) => {
+                let mut values = values.into_iter();
+                Ok((for_tuples!( #( Tuple::try_from_cbor_value(
+                    values.next().ok_or(DecodeError::MissingField)?
+                )? ),* )))
             }
             _ => Err(DecodeError::UnexpectedType),
         }
-- 
2.43.0


From 28c2d6d370d5464a060ff03cc8cdb45b77c16f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:00 +0000
Subject: [PATCH 02/13] fix: order map keys that contain maps by their
 canonical encoding

---
 value/src/writer.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/value/src/writer.rs b/value/src/writer.rs
index e73d5eb..542badc 100644
--- a/value/src/writer.rs
+++ b/value/src/writer.rs
@@ -44,6 +44,22 @@ pub fn write_nested(
     writer.encode_cbor(value, max_nest)
 }
 
+/// Sort the entries of all maps contained in the given value by their keys.
+fn sort_nested_maps(value: &mut Value) {
+    match value {
+        Value::Array(array) => array.iter_mut().for_each(sort_nested_maps),
+        Value::Map(map) => {
+            for (k, v) in map.iter_mut() {
+                sort_nested_maps(k);
+                sort_nested_maps(v);
+            }
+            map.sort_by(|a, b| a.0.cmp(&b.0));
+        }
+        Value::Tag(_, inner_value) => sort_nested_maps(inner_value),
+        _ => {}
+    }
+}
+
 struct Writer<'a> {
     encoded_cbor: &'a mut Vec<u8>,
 }
@@ -80,6 +96,9 @@ impl<'a> Writer<'a> {
                 }
             }
             Value::Map(mut map) => {
+                // Keys may themselves contain maps, which must be in canonical order for the
+                // comparison of keys to match the order of their encodings.
+                map.iter_mut().for_each(|(k, _)| sort_nested_maps(k));
                 map.sort_by(|a, b| a.0.cmp(&b.0));
                 let map_len = map.len();
                 map.dedup_by(|a, b| a.0.eq(&b.0));
-- 
2.43.0


From bdb77d7211fe256c86d899dcc62e4e417ee2a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 03/13] fix: do not read the bits of floats as simple values in
 non-strict decoding

---
 value/src/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 86d8eea..0f73ed9 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -231,8 +231,11 @@ impl<'a> Reader<'a> {
     ) -> Result<Value, DecoderError> {
         if additional_info > Constants::ADDITIONAL_INFORMATION_MAX_INT
             && additional_info != Constants::ADDITIONAL_INFORMATION_1_BYTE
-            && !self.non_strict
         {
+            if self.non_strict {
+                // The argument holds the bits of a float, not a simple value.
+                return Ok(Value::Simple(SimpleValue::Undefined));
+            }
             // TODO(kaczmarczyck) the chromium C++ reference allows equality to 24 here, why?
             // Also, why not just disallow ANY additional_info != size_value?
             return Err(DecoderError::UnsupportedFloatingPointValue);
-- 
2.43.0


From 58f69af1dd97deed890cadae93eecaef7d019817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 04/13] fix: do not wrap negative integers below i64::MIN when
 deserializing with serde

---
 src/serde/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb3759a..d8f2d58 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -1,4 +1,4 @@
-use std::iter::Peekable;
+use std::{convert::TryFrom, iter::Peekable};
 
 use serde::{
     de::{self, Error as _, Visitor},
@@ -25,7 +25,10 @@ impl<'de> de::Deserializer<'de> for Deserializer {
     {
         let value = match self.0 {
             Value::Unsigned(n) => visitor.visit_u64(n),
-            Value::Negative(n) => visitor.visit_i64(n as i64),
+            Value::Negative(n) => match i64::try_from(n) {
+                Ok(n) => visitor.visit_i64(n),
+                Err(_) => visitor.visit_i128(n),
+            },
             Value::ByteString(bytes) => visitor.visit_byte_buf(bytes),
             Value::TextString(s) => visitor.visit_string(s),
             Value::Array(_) => self.deserialize_seq(visitor),
-- 
2.43.0


From a4f27e851306c13305682e277de26d0dcd9eb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 05/13] fix: encode hash sets deterministically

---
 src/encode.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encode.rs b/src/encode.rs
index 4714c54..c6a92e2 100644
--- a/src/encode.rs
+++ b/src/encode.rs
@@ -289,7 +289,10 @@ impl<V: Encode> Encode for HashSet<V> {
     }
 
     fn into_cbor_value(self) -> Value {
-        Value::Array(self.into_iter().map(Encode::into_cbor_value).collect())
+        // The iteration order is arbitrary, so sort the elements to have a deterministic encoding.
+        let mut values: Vec<_> = self.into_iter().map(Encode::into_cbor_value).collect();
+        values.sort();
+        Value::Array(values)
     }
 }
 
-- 
2.43.0


From b760d9f82cbd29e650c29fa40f504bf2fb444a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:50 +0000
Subject: [PATCH 06/13] fix: encode unit variants of internally tagged enums as
 maps

---
 derive/src/encode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 64c3452..0948471 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -339,7 +339,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                         &variant.ident,
                         false,
                         variant.as_array.is_present(),
-                        variant.as_struct.is_present(),
+                        // Variants of internally tagged enums are always maps.
+                        variant.as_struct.is_present() || enc.tag.is_some(),
                         variant.fields.as_ref(),
                         Some(idents),
                     );
-- 
2.43.0


From 7960597398d7e070dcae63953985c8966b55531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 07/13] fix: honor serialize_with for optional fields

---
 derive/src/encode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 0948471..1cd55b0 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -172,8 +172,12 @@ fn derive_struct(
                         // null value.
                         match &field.skip_serializing_if {
                             None => {
+                                let optional_value = match &field.serialize_with {
+                                    Some(custom_encode_fn) => quote!(#custom_encode_fn(&#field_binding)),
+                                    None => field_binding,
+                                };
                                 quote! {
-                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#field_binding) {
+                                    if let Some(value) = __cbor::Encode::into_optional_cbor_value(#optional_value) {
                                         fields.push((#key, value));
                                     }
                                 }
-- 
2.43.0


From 69943486795ebbf589cc81b20e3e66fbbeef5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 08/13] fix: allow unknown fields anywhere in structs that
 allow unknown fields

---
 derive/src/decode.rs | 14 +++++++++++---
 src/macros.rs        |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index ede87e1..274e5ff 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -148,10 +148,18 @@ fn derive_struct(
                         quote_spanned!(field_ty.span()=> ::std::default::Default::default())
                     } else {
                         let decode_fn = field_decode_fn(&field);
-                        let destruct_fn = quote_spanned!(field_ty.span()=>
-                            __cbor::macros::destructure_cbor_map_peek_value_strict);
+                        let destruct = if allow_unknown {
+                            // Skip over any unknown fields preceding this one.
+                            let destruct_fn = quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value);
+                            quote!(#destruct_fn(&mut it, #key))
+                        } else {
+                            let destruct_fn = quote_spanned!(field_ty.span()=>
+                                __cbor::macros::destructure_cbor_map_peek_value_strict);
+                            quote!(#destruct_fn(&mut it, #key)?)
+                        };
                         let field_value = quote!({
-                            let v: Option<__cbor::Value> = #destruct_fn(&mut it, #key)?;
+                            let v: Option<__cbor::Value> = #destruct;
                             #decode_fn(v.unwrap_or(__cbor::Value::Simple(__cbor::SimpleValue::NullValue)))?
                         });
 
diff --git a/src/macros.rs b/src/macros.rs
index bbc6490..2310e50 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -2,6 +2,8 @@ use std::{cmp::Ordering, iter::Peekable};
 
 use crate::{values::Value, DecodeError};
 
+pub use oasis_cbor_value::macros::destructure_cbor_map_peek_value;
+
 /// This function is an internal detail of the Decode derive macro, but has public visibility so
 /// that users of the macro can use it.
 pub fn destructure_cbor_map_peek_value_strict(
-- 
2.43.0


From 2ab6cb4dfb99a871b7afdde59a146a8d7367e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 09/13] fix: try embedded variants when decoding maps that do
 not have a single entry

---
 derive/src/decode.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 274e5ff..89c0d92 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -407,6 +407,15 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             Err(__cbor::DecodeError::UnknownField)
         }
     } else {
+        let embedded_decoders_other_map = if !embedded_decoders.is_empty() {
+            // An embedded type may encode as a map with any number of entries.
+            quote! {
+                let value = __cbor::Value::Map(map);
+                #(#embedded_decoders)*
+            }
+        } else {
+            quote!()
+        };
         let embedded_decoders_map = if !embedded_decoders.is_empty() {
             quote! {
                 let value = __cbor::Value::Map(vec![(key, value)]);
@@ -420,6 +429,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             match value {
                 __cbor::Value::Map(mut map) => {
                     if map.len() != 1 {
+                        #embedded_decoders_other_map
                         return Err(__cbor::DecodeError::UnknownField);
                     }
 
-- 
2.43.0


From 9c822c327d88f4f6c56e437ce456e29d5bd21f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:24 +0000
Subject: [PATCH 10/13] fix: honor custom conversions on the field of
 transparent structs and newtype variants

---
 derive/src/decode.rs | 16 +++++++++++-----
 derive/src/encode.rs | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 89c0d92..4d0787f 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -67,6 +67,14 @@ fn field_decode_fn(field: &Field) -> TokenStream {
     }
 }
 
+/// Generates the function to decode the only field of a newtype with.
+fn newtype_decode_fn(ident: &Ident, fields: &darling::ast::Fields<&Field>) -> TokenStream {
+    match fields.iter().next() {
+        Some(field) if field.deserialize_with.is_some() => field_decode_fn(field),
+        _ => quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default),
+    }
+}
+
 fn derive_struct(
     ident: &Ident,
     transparent: bool,
@@ -78,7 +86,7 @@ fn derive_struct(
     if transparent {
         // Transparently forward the implementation to the underlying type. This is only valid for
         // newtype structs.
-        let decode_fn = quote_spanned!(ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+        let decode_fn = newtype_decode_fn(ident, &fields);
         quote!(Self(#decode_fn(value)?))
     } else {
         // Process all fields and decode the structure as a map or array.
@@ -273,8 +281,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
 
             let decoder = if variant.fields.is_newtype() {
                 // Newtype variants map the key directly to the inner value as if transparent was used.
-                let decode_fn =
-                    quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+                let decode_fn = newtype_decode_fn(&variant.ident, &variant.fields.as_ref());
                 quote!(Self::#variant_ident(#decode_fn(value)?))
             } else {
                 if dec.tag.is_some() && (variant.as_array.is_present() || variant.fields.is_tuple()) {
@@ -359,8 +366,7 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
             }
 
             let variant_ident = &variant.ident;
-            let decode_fn =
-                quote_spanned!(variant.ident.span()=> __cbor::Decode::try_from_cbor_value_default);
+            let decode_fn = newtype_decode_fn(&variant.ident, &variant.fields.as_ref());
 
             // TODO: Can we get rid of clone?
             Some(quote! {
diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 1cd55b0..791407a 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -108,10 +108,11 @@ fn derive_struct(
 
         let encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_cbor_value);
         let opt_encode_fn = quote_spanned!(ident.span()=> __cbor::Encode::into_optional_cbor_value);
+        let inner = newtype_value(&fields, quote!(self.0));
 
         DeriveResult {
-            enc_impl: quote!(#encode_fn(self.0)),
-            opt_enc_impl: quote!(#opt_encode_fn(self.0)),
+            enc_impl: quote!(#encode_fn(#inner)),
+            opt_enc_impl: quote!(#opt_encode_fn(#inner)),
             encode_as_map: false, // We cannot be sure that the inner type encodes as map.
         }
     } else {
@@ -222,6 +223,14 @@ fn derive_struct(
     }
 }
 
+/// Generates the value to encode for the only field of a newtype.
+fn newtype_value(fields: &darling::ast::Fields<&Field>, binding: TokenStream) -> TokenStream {
+    match fields.iter().next().and_then(|f| f.serialize_with.as_ref()) {
+        Some(custom_encode_fn) => quote!(#custom_encode_fn(&#binding)),
+        None => binding,
+    }
+}
+
 fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
     // Make sure the transparent attribute cannot be used on an enum.
     if enc.transparent.is_present() {
@@ -291,7 +300,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                     return (quote!(), false);
                 }
                 // TODO: It would be great if this somehow ensured that there was no overlap etc.
-                return (quote! { Self::#variant_ident(inner) => #encode_fn(inner), }, true);
+                let inner = newtype_value(&variant.fields.as_ref(), quote!(inner));
+                return (quote! { Self::#variant_ident(inner) => #encode_fn(#inner), }, true);
             }
 
             if variant.fields.is_unit() && !variant.as_struct.is_present() && enc.tag.is_none() {
@@ -307,7 +317,8 @@ fn derive_enum(enc: &Codable, variants: Vec<&Variant>) -> DeriveResult {
                 // For others, encode as a map.
                 if variant.fields.is_newtype() {
                     // Newtype variants map the key directly to the inner value as if transparent was used.
-                    let inner = quote!(#encode_fn(inner));
+                    let inner = newtype_value(&variant.fields.as_ref(), quote!(inner));
+                    let inner = quote!(#encode_fn(#inner));
                     let wrapper = maybe_wrap_map(variant, key, inner);
 
                     (quote! { Self::#variant_ident(inner) => #wrapper, }, true)
-- 
2.43.0


From 08486f14369b55ca52b0263bd99da13f767e68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:40 +0000
Subject: [PATCH 11/13] fix: reject unknown fields of unit variants that encode
 as maps

---
 derive/src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/decode.rs b/derive/src/decode.rs
index 4d0787f..c2aa992 100644
--- a/derive/src/decode.rs
+++ b/derive/src/decode.rs
@@ -23,6 +23,7 @@ pub fn derive(input: DeriveInput) -> TokenStream {
                 &dec.ident,
                 dec.transparent.is_present(),
                 dec.as_array.is_present(),
+                false,
                 dec.allow_unknown.is_present(),
                 fields,
                 quote!(Self),
@@ -79,6 +80,7 @@ fn derive_struct(
     ident: &Ident,
     transparent: bool,
     as_array: bool,
+    unit_as_struct: bool,
     allow_unknown: bool,
     fields: darling::ast::Fields<&Field>,
     self_ty: TokenStream,
@@ -127,7 +129,7 @@ fn derive_struct(
                 .collect();
 
             (extract_value, field_map_items)
-        } else if fields.is_unit() {
+        } else if fields.is_unit() && !unit_as_struct {
             // This is a unit struct with no fields.
             (quote! {Vec::<()>::new()}, vec![])
         } else {
@@ -299,6 +301,8 @@ fn derive_enum(dec: &Codable, variants: Vec<&Variant>) -> TokenStream {
                     &variant.ident,
                     false,
                     variant.as_array.is_present(),
+                    // Unit variants that get here are encoded as maps without any fields.
+                    true,
                     variant.allow_unknown.is_present(),
                     variant.fields.as_ref(),
                     quote!(Self::#variant_ident),
-- 
2.43.0


From b78e6ca6e3cb3e56a99701c5bfa8eacaece4acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 12/13] fix: refuse to derive Encode for transparent unit
 structs

---
 derive/src/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/encode.rs b/derive/src/encode.rs
index 791407a..e8c8c81 100644
--- a/derive/src/encode.rs
+++ b/derive/src/encode.rs
@@ -86,7 +86,7 @@ fn derive_struct(
     fields: darling::ast::Fields<&Field>,
     field_bindings: Option<Vec<Ident>>,
 ) -> DeriveResult {
-    if fields.is_unit() && !unit_as_struct {
+    if fields.is_unit() && !unit_as_struct && !transparent {
         return DeriveResult {
             enc_impl: quote! { __cbor::Value::Simple(__cbor::SimpleValue::NullValue) },
             opt_enc_impl: quote! { None },
-- 
2.43.0


From a8b7afeb447f55c1053bf57560211e7a58559a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 13/13] fix: announced lengths beyond the address space wrapped
 on 32-bit targets

---
 value/src/reader.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/value/src/reader.rs b/value/src/reader.rs
index 0f73ed9..66cdd0e 100644
--- a/value/src/reader.rs
+++ b/value/src/reader.rs
@@ -117,11 +117,12 @@ impl<'a> Reader<'a> {
         }
     }
 
-    fn read_bytes(&mut self, num_bytes: usize) -> Option<&[u8]> {
-        if num_bytes > self.remaining_cbor.len() {
+    fn read_bytes(&mut self, num_bytes: u64) -> Option<&[u8]> {
+        // Compare before converting, as the number may not fit into a `usize`.
+        if num_bytes > self.remaining_cbor.len() as u64 {
             None
         } else {
-            let (left, right) = self.remaining_cbor.split_at(num_bytes);
+            let (left, right) = self.remaining_cbor.split_at(num_bytes as usize);
             self.remaining_cbor = right;
             Some(left)
         }
@@ -165,14 +166,14 @@ impl<'a> Reader<'a> {
     }
 
     fn read_byte_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(size_value) {
             Some(bytes) => Ok(cbor_bytes_lit!(bytes)),
             None => Err(DecoderError::IncompleteCborData),
         }
     }
 
     fn read_text_string_content(&mut self, size_value: u64) -> Result<Value, DecoderError> {
-        match self.read_bytes(size_value as usize) {
+        match self.read_bytes(size_value) {
             Some(bytes) => match str::from_utf8(bytes) {
                 Ok(s) => Ok(cbor_text!(s)),
                 Err(_) => Err(DecoderError::InvalidUtf8),
-- 
2.43.0

