From 0defbba39db6cf55dbaa6c764eab610cf783f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:38 +0000
Subject: [PATCH 01/16] fix: leave decoder broken after a malformed bool, char
 or option someness

MalformedData is documented to break the decoder, but these three left it
usable: a bad bool or char was reported as a finished message, and a bad
someness made the next call hit unreachable!().
---
 binschema/src/decoder.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..01562be 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -176,12 +177,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         match n {
             0 => Ok(false),
             1 => Ok(true),
-            _ => Err(error!(
-                MalformedData,
-                Some(self.coder_state()),
-                "{} is not a valid bool",
-                n,
-            )),
+            _ => {
+                self.state.mark_broken();
+                Err(error!(
+                    MalformedData,
+                    Some(self.coder_state()),
+                    "{} is not a valid bool",
+                    n,
+                ))
+            }
         }
     }
 
@@ -274,12 +278,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    )
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 999bd159ea4f62c501ddeb3f3056d4830ef5959f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:38 +0000
Subject: [PATCH 02/16] fix: finishing a seq early is an API usage error, not a
 debug panic

The debug assertion had its operands swapped, so it fired exactly in the
case the following check is there to report.
---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From 05bbe2888cabdd87017dc2dd1fd41ae28c85020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:38 +0000
Subject: [PATCH 03/16] fix: encoding an enum variant with an illegal recurse
 must not panic

The illegal schema error was followed by cancel_enum, whose debug assertion
failed because the enum frame had already moved on.
---
 binschema/src/coder/coder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..3680ea0 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -864,6 +864,11 @@ impl<'a> CoderState<'a> {
     /// `begin_enum_variant_name`, or unspecified behavior occurs.
     /// See `begin_enum`.
     pub(crate) fn cancel_enum(&mut self) {
+        if self.broken {
+            // beginning the variant failed irrecoverably (illegal schema), so
+            // there is no state worth restoring
+            return;
+        }
         debug_assert!(matches!(
             self.stack.iter().rev().next(),
             Some(&StackFrame {
-- 
2.43.0


From e78472aa654c2b13404fa1e63390f0e43887717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:39 +0000
Subject: [PATCH 04/16] fix: .need() never returns Schema::Recurse

A schema whose root is a recurse was returned as is, contrary to the
documentation, and made dynamic decoding hit unreachable!().
---
 binschema/src/coder/coder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 3680ea0..ac03559 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -375,6 +375,12 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                api_state: ApiState::Need,
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse at root of schema",
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 133460a5417fefc871a8369269d576a1de6469a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:41 +0000
Subject: [PATCH 05/16] fix: resolve recurse by levels in the schema tree, not
 frames on the stack

Once a recurse had been followed, the coder stack was deeper than the schema
tree, so a recurse reaching above the schema that had been recursed to was
resolved to the wrong schema. Mutually recursive types could not be coded.
---
 binschema/src/coder/coder.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index ac03559..a4f07dc 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -94,6 +94,10 @@ macro_rules! dbg_log_pop {
 #[derive(Debug, Clone)]
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
+    /// Stack index of the frame of the schema which is the parent of `schema`
+    /// in the schema tree, or `None` if `schema` is the root. Not necessarily
+    /// the frame below this one, since `schema` may have been recursed to.
+    parent: Option<usize>,
     api_state: ApiState,
 }
 
@@ -170,6 +174,7 @@ impl<'a> CoderState<'a> {
         let mut stack = alloc.into_stack();
         stack.push(StackFrame {
             schema,
+            parent: None,
             api_state: ApiState::Need,
         });
         CoderState {
@@ -298,6 +303,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -334,14 +340,22 @@ impl<'a> CoderState<'a> {
     /// Push a stack frame for needing the schema. If the schema is recurse,
     /// resolve it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
+        let mut parent = self.stack.len().checked_sub(1);
         while let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            // go up n levels in the schema tree, which is not the same as n
+            // frames down the stack if one of the parents was recursed to
+            let mut target = parent;
+            for _ in 1..n {
+                match target {
+                    Some(i) => target = self.stack[i].parent,
+                    None => break,
+                }
+            }
+            let i = target
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
@@ -349,9 +363,11 @@ impl<'a> CoderState<'a> {
                 ))
                 .do_if_err(|| self.broken = true)?;
             schema = self.stack[i].schema;
+            parent = self.stack[i].parent;
         }
         self.stack.push(StackFrame {
             schema,
+            parent,
             api_state: ApiState::Need,
         });
         Ok(())
@@ -378,12 +394,14 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema: &Schema::Recurse(_),
                 api_state: ApiState::Need,
+                ..
             }) => Err(error!(
                 IllegalSchema, Some(self), "recurse at root of schema",
             )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -550,6 +568,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -624,6 +643,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -658,6 +678,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -706,6 +727,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -749,6 +771,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -805,6 +828,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -842,6 +866,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From 510e8becba88f529491f6d84ffb148457a88d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:41 +0000
Subject: [PATCH 06/16] fix: finish empty seqs, tuples, maps and structs when
 deserializing

They were only ever finished upon decoding their last element, so anything
containing an empty collection could be serialized but not deserialized.
---
 binschema/src/serde/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..19ea2c6 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        // otherwise, finishing happens upon decoding the last element
+        if len == 0 {
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,10 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        // otherwise, finishing happens upon decoding the last field
+        if fields.is_empty() {
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +263,10 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        // otherwise, finishing happens upon decoding the last entry
+        if len == 0 {
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From 7941b84cd0481dd0dc31cd0134909df09a466117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:42 +0000
Subject: [PATCH 07/16] fix: do not allocate by declared length when decoding

A few bytes of malformed str, bytes or seq could declare any length up to
usize::MAX, which panicked or aborted the process.
---
 binschema/src/decoder.rs | 34 +++++++++++++++++++++-------------
 binschema/src/value.rs   |  6 ++++--
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 01562be..85356c2 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -20,9 +20,11 @@ use std::{
         size_of,
         take,
     },
-    io::Read,
+    io::{
+        ErrorKind,
+        Read,
+    },
     borrow::BorrowMut,
-    iter::repeat,
 };
 
 
@@ -128,6 +130,20 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             .do_if_err(|| self.state.mark_broken())
     }
 
+    /// Read exactly `len` bytes onto the end of `buf`. Memory is only allocated
+    /// as bytes arrive, since `len` may come from a malformed message.
+    fn read_onto(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        buf.reserve(len.min(1 << 12));
+        let n = Read::take(&mut *self.read, len as u64)
+            .read_to_end(buf)
+            .do_if_err(|| self.state.mark_broken())?;
+        if n < len {
+            self.state.mark_broken();
+            return Err(std::io::Error::from(ErrorKind::UnexpectedEof).into());
+        }
+        Ok(())
+    }
+
     decode_le_bytes!(
         decode_u8(u8) code_u8,
         decode_u16(u16) code_u16,
@@ -208,17 +224,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_onto(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -254,10 +265,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_onto(buf, len)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..15fe5a6 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -132,7 +132,8 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                // not with_capacity, as len may far exceed the actual data
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +146,8 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                // not with_capacity, as len may far exceed the actual data
+                let mut elems = Vec::new();
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From d0dc62981c34a59329842b1ae06a90b0b38b9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:42 +0000
Subject: [PATCH 08/16] fix: Range and RangeInclusive schemas name their first
 field as serde does

---
 binschema/src/known_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..dc5dbf5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -234,7 +234,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -244,7 +244,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
-- 
2.43.0


From 76c15d3b7d111792e95874a862258d30928c6ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:42 +0000
Subject: [PATCH 09/16] fix: Bound schema orders its variants as serde does

---
 binschema/src/known_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index dc5dbf5..5b5101f 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -254,9 +254,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From f894c92f3db074b76e440a74f8b6d9a531fd69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 10/16] fix: count the entry tuple as a level in map schemas

Types recursing through a map got a recurse to one level too few.
---
 binschema/src/known_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 5b5101f..029b3a5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,7 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From cd26dcf0982378432108bfbddb2cf070ce5e9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 11/16] fix: derive names raw identifiers without the r#, as
 serde does

---
 binschema_derive/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..68db282 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -56,7 +57,8 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    // serde also names raw identifiers without the r#
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -117,7 +119,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From e6c74fa0066ad330faa3659ea3374a24715db1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:14 +0000
Subject: [PATCH 12/16] fix: derived struct is one level in the schema tree,
 not two

The type layer and the layer for its fields were both pushed for the single
struct or tuple node of the schema, so any type recursing through a struct,
such as a linked list, got a recurse to one level too many.
---
 binschema_derive/src/lib.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 68db282..91ad82a 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -51,7 +51,9 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// `stack_layer` is code to shadow `stack` to include the schema node for
+/// the fields, if that is not already on the stack.
+fn fields_schema(fields: &Fields, stack_layer: TokenStream2) -> TokenStream2 {
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -67,7 +69,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #stack_layer
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -93,7 +95,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    #stack_layer
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -115,12 +117,14 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
 
     let name = &input.ident;
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, quote! {}),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = variant.ident.unraw();
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, quote! {
+                        let stack = stack.with_none_layer();
+                    });
                     quote! {
                         #variant_name(#inner)
                     }
-- 
2.43.0


From d92860cb6f6aac182ace75da3433927a37380afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:15 +0000
Subject: [PATCH 13/16] fix: derived newtype struct is not a level in the
 schema tree

A newtype struct has no schema node of its own, but was counted as one, so any
type recursing through one got a recurse to one level too many.
---
 binschema/src/known_schema.rs | 31 +++++++++++++++++++++++++++----
 binschema_derive/src/lib.rs   | 10 +++++++++-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 029b3a5..7cb9cfb 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -36,6 +36,9 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
     dbg: &'static str,
+    /// Whether there is no schema node specific to this layer, rather its
+    /// schema is that of the layer immediately inside of it.
+    transparent: bool,
     next: &'a Option<Node<'a>>,
 }
 
@@ -54,6 +57,18 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
             dbg: type_name::<T>(),
+            transparent: false,
+            next: &self.0,
+        }))
+    }
+
+    /// Like `with_type_layer`, for a `T` which simply has the schema of some
+    /// inner type, such as a newtype struct.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            dbg: type_name::<T>(),
+            transparent: true,
             next: &self.0,
         }))
     }
@@ -62,30 +77,38 @@ impl<'a> RecurseStack<'a> {
         RecurseStack(Some(Node {
             val: None,
             dbg: "",
+            transparent: false,
             next: &self.0,
         }))
     }
 
-    pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+    /// Recurse level at which a schema inside all the layers would refer to
+    /// the schema of `T`.
+    fn find_level<T: KnownSchema>(&self) -> Option<usize> {
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
+            if !curr.transparent {
+                level += 1;
+            }
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
                     return Some(level);
                 }
             }
             opt_curr = curr.next;
-            level += 1;
         }
 
         None
     }
 
+    pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        self.find_level::<T>().map(|n| n.saturating_sub(1))
+    }
+
     pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
-        self.find_type::<T>()
-            .map(|n| Schema::Recurse(n + 1))
+        self.find_level::<T>().map(Schema::Recurse)
     }
 }
 
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 91ad82a..87f2d22 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -116,6 +116,14 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
 
     let name = &input.ident;
+    // a newtype struct has the schema of its inner value
+    let with_type_layer = match &input.data {
+        &Data::Struct(DataStruct {
+            fields: Fields::Unnamed(FieldsUnnamed { ref unnamed, .. }),
+            ..
+        }) if unnamed.len() == 1 => quote! { with_transparent_type_layer },
+        _ => quote! { with_type_layer },
+    };
     let schema = match &input.data {
         &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, quote! {}),
         &Data::Enum(DataEnum { ref variants, .. }) => {
@@ -145,7 +153,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#with_type_layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From c9efefa82ae4e28305430dc7f2458916c4da6820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 14/16] fix: serializing elements to a unit must not finish the
 unit

---
 binschema/src/serde/ser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/binschema/src/serde/ser.rs b/binschema/src/serde/ser.rs
index 3531206..c608aa7 100644
--- a/binschema/src/serde/ser.rs
+++ b/binschema/src/serde/ser.rs
@@ -60,10 +60,8 @@ impl<'a, 'b, W: Write> Encoder<'a, 'b, W> {
                     self.begin_tuple()?;
                     SeqLike::Tuple
                 },
-                &Schema::Unit => {
-                    self.encode_unit()?;
-                    SeqLike::Unit
-                }
+                // the unit is encoded upon end, once there were no elements
+                &Schema::Unit => SeqLike::Unit,
                 schema => bail!(
                     SchemaNonConformance,
                     Some(self.coder_state()),
@@ -252,7 +250,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
             SeqLike::Seq => self.encoder.begin_seq_elem()?,
             SeqLike::Tuple => self.encoder.begin_tuple_elem()?,
             SeqLike::Unit => bail!(
-                Other,
+                SchemaNonConformance,
                 Some(self.encoder.coder_state()),
                 "serialize element to unit as seq-like",
             ),
@@ -264,7 +262,7 @@ impl<'a, 'b, 'c, W: Write> SeqLikeSerializer<'a, 'b, 'c, W> {
         match self.seq_like {
             SeqLike::Seq => self.encoder.finish_seq(),
             SeqLike::Tuple => self.encoder.finish_tuple(),
-            SeqLike::Unit => Ok(()),
+            SeqLike::Unit => self.encoder.encode_unit(),
         }
     }
 }
-- 
2.43.0


From ae47a1606db5916ae3cbf82a0f8574013fa9ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 15/16] fix: malformed var len ints and ordinals are malformed
 data, not IO errors

---
 binschema/src/var_len.rs | 41 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..a8bb6c6 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,14 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{self, error, bail, ensure};
 use std::io::{
     Read,
     Write,
     Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -58,11 +45,16 @@ where
 pub fn read_ord<R>(
     read: &mut R,
     num_variants: usize,
-) -> Result<usize>
+) -> error::Result<usize>
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +62,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -105,7 +99,7 @@ where
 /// Read a variable length unsigned int.
 pub fn read_var_len_uint<R>(
     read: &mut R,
-) -> Result<u128>
+) -> error::Result<u128>
 where
     R: Read,
 {
@@ -115,7 +109,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -167,7 +163,7 @@ where
 /// Read a variable length signed int.
 pub fn read_var_len_sint<R>(
     read: &mut R,
-) -> Result<i128>
+) -> error::Result<i128>
 where
     R: Read,
 {
@@ -183,10 +179,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From d680ab778a6e413e2fd063dcbd7a1382b486f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 16/16] fix: a refused begin_enum must close what it opened in
 the debug log

---
 binschema/src/coder/coder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index a4f07dc..37e19bb 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -907,6 +907,7 @@ impl<'a> CoderState<'a> {
                 ..
             }),
         ));
+        dbg_log_pop!(self, "enum cancelled");
         self.top().api_state = ApiState::Need;
     }
 }
-- 
2.43.0

