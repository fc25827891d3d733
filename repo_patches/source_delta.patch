From 326b08ddd474aefa294d45fcc9a555f893015ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 01/16] fix: finishing a seq early is an API usage error, not a
 debug panic

The debug assertion in finish_seq was the wrong way round: it required the
seq to be complete already, so with debug assertions on an early finish_seq
panicked instead of returning the API usage error that follows it.
---
 binschema/src/coder/coder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 393f176..cc4b703 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -577,7 +577,7 @@ impl<'a> CoderState<'a> {
                 } => (len, next),
                 "seq finish"
             );
-        debug_assert!(len <= next);
+        debug_assert!(next <= len);
         ensure!(
             len == next,
             ApiUsage,
-- 
2.43.0


From aa24771bb8c3c9e0e4b3663b55a949bc6444fa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 02/16] fix: mark decoder broken on malformed char, bool and
 option someness

ErrorKind::MalformedData documents that the decoder is left in a broken
state. These three sites did not do so: after a malformed char or bool at the
root the coder reported that it was finished, and after a malformed someness
the next coding call hit an unreachable!().
---
 binschema/src/decoder.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 3971bfe..01562be 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -168,6 +168,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 "{} is not a valid char",
                 n
             ))
+            .do_if_err(|| self.state.mark_broken())
     }
 
     pub fn decode_bool(&mut self) -> Result<bool> {
@@ -176,12 +177,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         match n {
             0 => Ok(false),
             1 => Ok(true),
-            _ => Err(error!(
-                MalformedData,
-                Some(self.coder_state()),
-                "{} is not a valid bool",
-                n,
-            )),
+            _ => {
+                self.state.mark_broken();
+                Err(error!(
+                    MalformedData,
+                    Some(self.coder_state()),
+                    "{} is not a valid bool",
+                    n,
+                ))
+            }
         }
     }
 
@@ -274,12 +278,15 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
             match n {
                 0 => false,
                 1 => true,
-                _ => bail!(
-                    MalformedData,
-                    Some(self.coder_state()),
-                    "{} is not a valid option someness",
-                    n,
-                ),
+                _ => {
+                    self.state.mark_broken();
+                    bail!(
+                        MalformedData,
+                        Some(self.coder_state()),
+                        "{} is not a valid option someness",
+                        n,
+                    )
+                }
             };
         if is_some {
             self.state.set_option_some()?;
-- 
2.43.0


From 918a2ad011a4bb6ec070a17b759775e2884ae84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 03/16] fix: encoding an enum variant with illegal recurse must
 not panic

begin_enum_variant_name can fail after leaving the Enum state when resolving
the variant's schema fails. Encoder::begin_enum then called cancel_enum, whose
debug assertion requires the Enum state.
---
 binschema/src/coder/coder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cc4b703..45dc695 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -864,6 +864,11 @@ impl<'a> CoderState<'a> {
     /// `begin_enum_variant_name`, or unspecified behavior occurs.
     /// See `begin_enum`.
     pub(crate) fn cancel_enum(&mut self) {
+        // if `begin_enum_variant_name` failed because the variant's schema is
+        // illegal, the coder is broken and there is nothing to restore
+        if self.broken {
+            return;
+        }
         debug_assert!(matches!(
             self.stack.iter().rev().next(),
             Some(&StackFrame {
-- 
2.43.0


From f81cfa5073b175ded7ad356c977f25c5120be8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:56 +0000
Subject: [PATCH 04/16] fix: resolve recurse by the schema tree rather than by
 the coder stack

FORMAT.txt defines recurse(n) as a reference to the schema n levels up in the
schema tree. It was resolved as the n'th frame down the coder stack, which
differs once a recurse has been entered: below it, a recurse that points
further up than the re-entered schema landed on whichever schema was being
coded there. Keep each frame's enclosing frame in the schema tree and follow
those links.
---
 binschema/src/coder/coder.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index 45dc695..a20470f 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -94,6 +94,10 @@ macro_rules! dbg_log_pop {
 #[derive(Debug, Clone)]
 pub(super) struct StackFrame<'a> {
     schema: &'a Schema,
+    /// Stack index of the frame for the schema which directly encloses
+    /// `schema` in the schema tree. Differs from the frame below this one if
+    /// `schema` was reached through a recurse.
+    parent: Option<usize>,
     api_state: ApiState,
 }
 
@@ -170,6 +174,7 @@ impl<'a> CoderState<'a> {
         let mut stack = alloc.into_stack();
         stack.push(StackFrame {
             schema,
+            parent: None,
             api_state: ApiState::Need,
         });
         CoderState {
@@ -298,6 +303,7 @@ macro_rules! validate_need_matches {
             &mut StackFrame {
                 schema: $pat,
                 api_state: ApiState::Need,
+                ..
             } => $ret,
             $got
         )
@@ -331,27 +337,35 @@ impl<'a> CoderState<'a> {
         &mut self.stack[i]
     }
 
-    /// Push a stack frame for needing the schema. If the schema is recurse,
-    /// resolve it first.
+    /// Push a stack frame for needing the schema, which must be directly
+    /// inside the top stack frame's schema. If the schema is recurse, resolve
+    /// it first.
     fn push_need(&mut self, mut schema: &'a Schema) -> Result<()> {
-        let mut i = self.stack.len();
+        let mut parent = self.stack.len().checked_sub(1);
         while let &Schema::Recurse(n) = schema {
             if n == 0 {
                 self.broken = true;
                 bail!(IllegalSchema, Some(self), "recurse of level 0");
             }
-            i = i
-                .checked_sub(n)
+            for _ in 1..n {
+                parent = match parent {
+                    Some(i) => self.stack[i].parent,
+                    None => break,
+                };
+            }
+            let i = parent
                 .ok_or_else(|| error!(
                     IllegalSchema,
                     Some(self),
-                    "recurse past base of stack",
+                    "recurse past base of schema",
                 ))
                 .do_if_err(|| self.broken = true)?;
             schema = self.stack[i].schema;
+            parent = self.stack[i].parent;
         }
         self.stack.push(StackFrame {
             schema,
+            parent,
             api_state: ApiState::Need,
         });
         Ok(())
@@ -378,6 +392,7 @@ impl<'a> CoderState<'a> {
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
+                ..
             }) => Ok(schema),
             _ => Err(error!(
                 ApiUsage, Some(self), ".need() call while not in need state"
@@ -544,6 +559,7 @@ impl<'a> CoderState<'a> {
                         len,
                         ref mut next,
                     },
+                    ..
                 } => (schema, len, next),
                 "seq elem"
             );
@@ -618,6 +634,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple elem"
             );
@@ -652,6 +669,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Tuple {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "tuple finish"
             );
@@ -700,6 +718,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         ref mut next,
                     },
+                    ..
                 } => (schema, next),
                 "struct field"
             );
@@ -743,6 +762,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Struct {
                         next,
                     },
+                    ..
                 } => (schema, next),
                 "struct finish"
             );
@@ -799,6 +819,7 @@ impl<'a> CoderState<'a> {
                 &mut StackFrame {
                     schema,
                     api_state: ApiState::Enum { variant_ord: None },
+                    ..
                 } => schema,
                 "enum variant ord"
             );
@@ -836,6 +857,7 @@ impl<'a> CoderState<'a> {
                     api_state: ApiState::Enum {
                         variant_ord: Some(variant_ord),
                     },
+                    ..
                 } => (schema, variant_ord),
                 "enum variant name"
             );
-- 
2.43.0


From 2aa1f3a9b653848fda606309562533862ab30acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 05/16] fix: need() must not return an unresolved recurse at
 the schema root

---
 binschema/src/coder/coder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index a20470f..cb9d2f1 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -389,6 +389,12 @@ impl<'a> CoderState<'a> {
     /// couldn't resolve.
     pub(crate) fn need(&self) -> Result<&'a Schema> {
         match self.stack.iter().rev().next() {
+            Some(&StackFrame {
+                schema: &Schema::Recurse(_),
+                ..
+            }) => Err(error!(
+                IllegalSchema, Some(self), "recurse past base of schema",
+            )),
             Some(&StackFrame {
                 schema,
                 api_state: ApiState::Need,
-- 
2.43.0


From 3cf18f4ce79820e17d0c08a3eba2815d588b9bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 06/16] fix: finish deserializing empty seqs, maps, tuples and
 structs

Finishing happened only after the last element, so an empty one was never
finished: decoding it left the coder unfinished, and decoding anything after
it failed.
---
 binschema/src/serde/de.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/binschema/src/serde/de.rs b/binschema/src/serde/de.rs
index 93ca7a3..057ef1a 100644
--- a/binschema/src/serde/de.rs
+++ b/binschema/src/serde/de.rs
@@ -81,6 +81,14 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
                 got_len,
             );
         }
+        if len == 0 {
+            // there is no last element for finishing to follow
+            match seq_like {
+                SeqLike::Seq => self.finish_seq()?,
+                SeqLike::Tuple => self.finish_tuple()?,
+                SeqLike::Unit => (),
+            }
+        }
         v.visit_seq(SeqDecoder {
             decoder: self,
             remaining: len,
@@ -98,6 +106,10 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         N: AsName,
     {
         self.begin_struct()?;
+        if fields.is_empty() {
+            // there is no last field for finishing to follow
+            self.finish_struct()?;
+        }
         v.visit_map(StructDecoder {
             decoder: self,
             remaining: fields,
@@ -251,6 +263,10 @@ impl<'a, 'b, 'c, 'd, R: Read> Deserializer<'d> for &'c mut Decoder<'a, 'b, R> {
 
     fn deserialize_map<V: Visitor<'d>>(self, v: V) -> Result<V::Value> {
         let len = self.begin_var_len_seq()?;
+        if len == 0 {
+            // there is no last entry for finishing to follow
+            self.finish_seq()?;
+        }
         v.visit_map(MapDecoder {
             decoder: self,
             remaining: len,
-- 
2.43.0


From 01b5b31974416fea2367ecfe68cbbf68d3df9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 07/16] fix: name range fields as serde does

serde calls the lower bound of ranges "start", so ranges could not be
(de)serialized with their known schema.
---
 binschema/src/known_schema.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 1d0bb58..dc5dbf5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -234,7 +234,7 @@ impl<T: KnownSchema> KnownSchema for Range<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
@@ -244,7 +244,7 @@ impl<T: KnownSchema> KnownSchema for RangeInclusive<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(struct {
-            (begin: %T::schema(stack)),
+            (start: %T::schema(stack)),
             (end: %T::schema(stack)),
         })
     }
-- 
2.43.0


From 34e056931583dd97ad51d54353deae0f328014c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 08/16] fix: order the variants of Bound as serde does

serde numbers them unbounded, included, excluded, so bounds could not be
(de)serialized with their known schema.
---
 binschema/src/known_schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index dc5dbf5..5b5101f 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -254,9 +254,9 @@ impl<T: KnownSchema> KnownSchema for Bound<T> {
     fn schema(parent_stack: RecurseStack) -> Schema {
         let stack = parent_stack.with_type_layer::<Self>();
         schema!(enum {
+            Unbounded(unit),
             Included(%T::schema(stack)),
             Excluded(%T::schema(stack)),
-            Unbounded(unit),
         })
     }
 }
-- 
2.43.0


From 8215c887fd2454330d15747131a49db87c7ef25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 09/16] fix: count the tuple layer of maps when recursing

The schema of a map is a seq of tuples, but only one layer was put on the
recurse stack, so types which recurse through a map got a recurse level one
too low.
---
 binschema/src/known_schema.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 5b5101f..029b3a5 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -182,6 +182,7 @@ macro_rules! maps_known_schema {
         impl<K: KnownSchema, V: KnownSchema> KnownSchema for $c<K, V> {
             fn schema(parent_stack: RecurseStack) -> Schema {
                 let stack = parent_stack.with_type_layer::<Self>();
+                let stack = stack.with_none_layer();
                 schema!(seq(varlen)(tuple {
                     (%K::schema(stack)),
                     (%V::schema(stack)),
-- 
2.43.0


From 15243486457bbe1b50f26dfbe6ee0075ad01aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 10/16] fix: derive the correct recurse levels for recursive
 structs

A struct with named fields or several tuple fields is one schema layer, but
deriving put both its type layer and a none layer on the recurse stack, so a
type which recurses through a struct got a recurse level one too high, which
for a recursive struct at the root is beyond the root.
---
 binschema_derive/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 1237e6a..b122d1e 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -50,7 +50,15 @@ fn field_schema(field: &Field) -> TokenStream2 {
     }
 }
 
-fn fields_schema(fields: &Fields) -> TokenStream2 {
+/// `is_variant` is whether the fields are those of an enum variant, in which
+/// case there is a schema layer (that of the enum) above the one these fields
+/// are directly in.
+fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
+    let stack = if is_variant {
+        quote! { stack.with_none_layer() }
+    } else {
+        quote! { stack }
+    };
     match fields {
         &Fields::Named(FieldsNamed { ref named, .. }) => {
             // struct-like
@@ -65,7 +73,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                 .collect::<Punctuated<_, Comma>>();
             quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         struct { #inner }
                     )
@@ -91,7 +99,7 @@ fn fields_schema(fields: &Fields) -> TokenStream2 {
                     .collect::<Punctuated<_, Comma>>();
                 quote! {
                 %{
-                    let stack = stack.with_none_layer();
+                    let stack = #stack;
                     ::binschema::schema!(
                         tuple { #inner }
                     )
@@ -113,12 +121,12 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
 
     let name = &input.ident;
     let schema = match &input.data {
-        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields),
+        &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
                     let variant_name = &variant.ident;
-                    let inner = fields_schema(&variant.fields);
+                    let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
                     }
-- 
2.43.0


From 77d00823d8fe81458067e1a0da55173f93c602bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 11/16] fix: derive the correct recurse levels for types
 recursive through newtypes

A newtype struct has the schema of its field, but counted as a schema layer of
its own on the recurse stack, so a type which recurses through a newtype
struct got a recurse level one too high.
---
 binschema/src/known_schema.rs | 32 +++++++++++++++++++++++++++++---
 binschema_derive/src/lib.rs   | 10 +++++++++-
 2 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/binschema/src/known_schema.rs b/binschema/src/known_schema.rs
index 029b3a5..82a3f43 100644
--- a/binschema/src/known_schema.rs
+++ b/binschema/src/known_schema.rs
@@ -35,6 +35,9 @@ pub struct RecurseStack<'a>(Option<Node<'a>>);
 #[derive(Copy, Clone)]
 struct Node<'a> {
     val: Option<fn(RecurseStack) -> Schema>,
+    /// Whether the schema of this type is that of the layer above this one in
+    /// the stack, rather than a layer of the schema tree in itself.
+    transparent: bool,
     dbg: &'static str,
     next: &'a Option<Node<'a>>,
 }
@@ -53,6 +56,19 @@ impl<'a> RecurseStack<'a> {
     pub fn with_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
             val: Some(T::schema),
+            transparent: false,
+            dbg: type_name::<T>(),
+            next: &self.0,
+        }))
+    }
+
+    /// Like `with_type_layer`, but for types, such as newtype structs, which
+    /// have the exact schema of some inner type, and thus aren't a layer of
+    /// the schema tree in themselves.
+    pub fn with_transparent_type_layer<'b, T: KnownSchema + ?Sized>(&'b self) -> RecurseStack<'b> {
+        RecurseStack(Some(Node {
+            val: Some(T::schema),
+            transparent: true,
             dbg: type_name::<T>(),
             next: &self.0,
         }))
@@ -61,31 +77,41 @@ impl<'a> RecurseStack<'a> {
     pub fn with_none_layer<'b>(&'b self) -> RecurseStack<'b> {
         RecurseStack(Some(Node {
             val: None,
+            transparent: false,
             dbg: "",
             next: &self.0,
         }))
     }
 
     pub fn find_type<T: KnownSchema>(&self) -> Option<usize> {
+        self.find_recurse_level::<T>()
+            .and_then(|n| n.checked_sub(1))
+    }
+
+    /// Find the level by which a recurse directly inside this stack would
+    /// refer to the schema of `T`.
+    fn find_recurse_level<T: KnownSchema>(&self) -> Option<usize> {
         let mut opt_curr = &self.0;
         let mut level = 0;
 
         while let Some(curr) = opt_curr {
+            if !curr.transparent {
+                level += 1;
+            }
             if let Some(curr_val) = curr.val {
                 if curr_val as usize == T::schema as usize {
                     return Some(level);
                 }
             }
             opt_curr = curr.next;
-            level += 1;
         }
 
         None
     }
 
     pub fn parent_recurse<T: KnownSchema>(&self) -> Option<Schema> {
-        self.find_type::<T>()
-            .map(|n| Schema::Recurse(n + 1))
+        self.find_recurse_level::<T>()
+            .map(Schema::Recurse)
     }
 }
 
diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index b122d1e..38fc17f 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -120,6 +120,14 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
     let input = parse_macro_input!(input as DeriveInput);
 
     let name = &input.ident;
+    let with_layer = match &input.data {
+        // a newtype struct has the schema of its field, so is itself no layer
+        &Data::Struct(DataStruct {
+            fields: Fields::Unnamed(FieldsUnnamed { ref unnamed, .. }),
+            ..
+        }) if unnamed.len() == 1 => quote! { with_transparent_type_layer },
+        _ => quote! { with_type_layer },
+    };
     let schema = match &input.data {
         &Data::Struct(DataStruct { ref fields, .. }) => fields_schema(fields, false),
         &Data::Enum(DataEnum { ref variants, .. }) => {
@@ -147,7 +155,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
                 if let Some(s) = parent_stack.parent_recurse::<Self>() {
                     return s;
                 }
-                let stack = parent_stack.with_type_layer::<Self>();
+                let stack = parent_stack.#with_layer::<Self>();
                 ::binschema::schema!(#schema)
             }
         }
-- 
2.43.0


From c21db6435065ff0a7fd6483b52dbe4ca7a17cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:05 +0000
Subject: [PATCH 12/16] fix: derive the names of raw identifiers as serde does

serde calls a field `r#type` "type", but the derived schema called it
"r#type", so such types could not be (de)serialized with it.
---
 binschema_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binschema_derive/src/lib.rs b/binschema_derive/src/lib.rs
index 38fc17f..7fb3244 100644
--- a/binschema_derive/src/lib.rs
+++ b/binschema_derive/src/lib.rs
@@ -2,6 +2,7 @@
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use syn::{
+    ext::IdentExt,
     token::Comma,
     punctuated::Punctuated,
     parse_macro_input,
@@ -64,7 +65,7 @@ fn fields_schema(fields: &Fields, is_variant: bool) -> TokenStream2 {
             // struct-like
             let inner = named.iter()
                 .map(|field| {
-                    let field_name = field.ident.as_ref().unwrap();
+                    let field_name = field.ident.as_ref().unwrap().unraw();
                     let inner = field_schema(field);
                     quote! {
                         (#field_name: #inner)
@@ -133,7 +134,7 @@ pub fn derive_known_schema(input: TokenStream) -> TokenStream {
         &Data::Enum(DataEnum { ref variants, .. }) => {
             let inner = variants.iter()
                 .map(|variant| {
-                    let variant_name = &variant.ident;
+                    let variant_name = variant.ident.unraw();
                     let inner = fields_schema(&variant.fields, true);
                     quote! {
                         #variant_name(#inner)
-- 
2.43.0


From 185423acf5e0196e5f7dac616b0de5ac17b03ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 13/16] fix: hostile lengths must not panic or abort the
 decoder

Decoding a str, bytes or seq allocated for its declared length up front, so a
few bytes declaring a length beyond isize::MAX panicked with a capacity
overflow, and one within it could allocate any amount of memory.
---
 binschema/src/decoder.rs | 35 +++++++++++++++++++++++------------
 binschema/src/value.rs   |  7 +++++--
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 01562be..2908cf4 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -22,9 +22,13 @@ use std::{
     },
     io::Read,
     borrow::BorrowMut,
-    iter::repeat,
 };
 
+/// Max number of bytes to grow a buffer by before reading data into it, so
+/// that a false length does not cause more than this to be allocated beyond
+/// the data which is actually there.
+const READ_CHUNK: usize = 1 << 16;
+
 
 /// Decodes a value from a `std::io::Read` comforming to a schema.
 pub struct Decoder<'a, 'b, R> {
@@ -114,6 +118,21 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         Ok(buf)
     }
 
+    /// Read `len` bytes onto the end of `buf`.
+    fn read_onto(&mut self, buf: &mut Vec<u8>, len: usize) -> Result<()> {
+        let mut remaining = len;
+        while remaining > 0 {
+            let chunk = usize::min(remaining, READ_CHUNK);
+            let start = buf.len();
+            buf.resize(start + chunk, 0);
+            self.read
+                .read_exact(&mut buf[start..])
+                .do_if_err(|| self.state.mark_broken())?;
+            remaining -= chunk;
+        }
+        Ok(())
+    }
+
     /// Read a varlen-encoded usize.
     fn read_len(&mut self) -> Result<usize> {
         read_var_len_uint(&mut self.read)
@@ -208,17 +227,12 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
         // characters are actually added to it.
         let mut bbuf = take(buf).into_bytes();
 
-        // TODO: protection against malicious payloads
-
         // try to read all the bytes in
         // on error, make sure to return the buffer
-        bbuf.reserve(len);
-        bbuf.extend(repeat(0).take(len));
-        if let Err(e) = self.read.read_exact(&mut bbuf) {
-            self.state.mark_broken();
+        if let Err(e) = self.read_onto(&mut bbuf, len) {
             bbuf.clear();
             *buf = String::from_utf8(bbuf).unwrap();
-            return Err(e.into());
+            return Err(e);
         }
 
         // try to convert to utf8
@@ -254,10 +268,7 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
 
         self.state.code_bytes()?;
         let len = self.read_len().do_if_err(|| self.state.mark_broken())?;
-        buf.reserve(len);
-        buf.extend(repeat(0).take(len));
-        self.read.read_exact(buf).do_if_err(|| self.state.mark_broken())?;
-        Ok(())
+        self.read_onto(buf, len)
     }
 
     /// Decode a bytes into a new alloc.
diff --git a/binschema/src/value.rs b/binschema/src/value.rs
index 3df5a12..b769b90 100644
--- a/binschema/src/value.rs
+++ b/binschema/src/value.rs
@@ -16,6 +16,9 @@ use std::io::{
     Read,
 };
 
+/// Max number of elements to allocate for before they have been decoded.
+const MAX_PREALLOC: usize = 1 << 10;
+
 
 #[derive(Debug, Clone, PartialEq, PartialOrd)]
 pub enum Value {
@@ -132,7 +135,7 @@ impl Value {
                 inner: _,
             }) => {
                 d.begin_fixed_len_seq(len)?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(usize::min(len, MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d,)?);
@@ -145,7 +148,7 @@ impl Value {
                 inner: _,
             }) => {
                 let len = d.begin_var_len_seq()?;
-                let mut elems = Vec::with_capacity(len);
+                let mut elems = Vec::with_capacity(usize::min(len, MAX_PREALLOC));
                 for _ in 0..len {
                     d.begin_seq_elem()?;
                     elems.push(Value::decode_from(d)?);
-- 
2.43.0


From 10ec6c0e4ee87156520d3f77f27db3d0f56df400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 14/16] fix: malformed var len ints and ordinals are malformed
 data, not IO errors

They were reported through std::io::Error and thus got ErrorKind::Io.
---
 binschema/src/decoder.rs |  5 -----
 binschema/src/var_len.rs | 44 +++++++++++++++++++++-------------------
 2 files changed, 23 insertions(+), 26 deletions(-)

diff --git a/binschema/src/decoder.rs b/binschema/src/decoder.rs
index 2908cf4..f21f17a 100644
--- a/binschema/src/decoder.rs
+++ b/binschema/src/decoder.rs
@@ -3,7 +3,6 @@ use crate::{
     do_if_err::DoIfErr,
     error::{
         Result,
-        Error,
         error,
         bail,
     },
@@ -73,7 +72,6 @@ macro_rules! decode_var_len_uint {
         pub fn $m(&mut self) -> Result<$t> {
             self.state.$c()?;
             read_var_len_uint(&mut self.read)
-                .map_err(Error::from)
                 .and_then(|n| $t::try_from(n)
                     .map_err(|_| error!(
                         MalformedData,
@@ -94,7 +92,6 @@ macro_rules! decode_var_len_sint {
         pub fn $m(&mut self) -> Result<$t> {
             self.state.$c()?;
             read_var_len_sint(&mut self.read)
-                .map_err(Error::from)
                 .and_then(|n| $t::try_from(n)
                     .map_err(|_| error!(
                         MalformedData,
@@ -136,7 +133,6 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
     /// Read a varlen-encoded usize.
     fn read_len(&mut self) -> Result<usize> {
         read_var_len_uint(&mut self.read)
-            .map_err(Error::from)
             .and_then(|n| usize::try_from(n)
                 .map_err(|_| error!(
                     PlatformLimits,
@@ -171,7 +167,6 @@ impl<'a, 'b, R: Read> Decoder<'a, 'b, R> {
     pub fn decode_char(&mut self) -> Result<char> {
         self.state.code_char()?;
         let n = read_var_len_uint(&mut self.read)
-            .map_err(Error::from)
             .and_then(|n| u32::try_from(n)
                 .map_err(|_| error!(
                     MalformedData,
diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 343207b..9d60d33 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -1,27 +1,18 @@
 //! Handling of variable-length integer logic.
 
 
+use crate::error::{
+    Result,
+    error,
+    ensure,
+    bail,
+};
 use std::io::{
     Read,
     Write,
-    Result,
-    Error,
-    ErrorKind,
 };
 
 
-macro_rules! ensure {
-    ($c:expr, $($e:tt)*)=>{
-        if !$c {
-            return Err(Error::new(
-                ErrorKind::Other,
-                format!($($e)*),
-            ));
-        }
-    };
-}
-
-
 /// Number of bytes needed to encode an ordinal based on max ordinal
 /// value.
 fn ord_byte_len(max_ord: usize) -> usize {
@@ -51,7 +42,8 @@ where
     let all_bytes = u64::to_le_bytes(ord as _);
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &all_bytes[..byte_len];
-    write.write_all(used_bytes)
+    write.write_all(used_bytes)?;
+    Ok(())
 }
 
 /// Read an enum ordinal.
@@ -62,7 +54,12 @@ pub fn read_ord<R>(
 where
     R: Read,
 {
-    ensure!(num_variants > 0, "malformed data, presence of uninhabited enum");
+    ensure!(
+        num_variants > 0,
+        MalformedData,
+        None,
+        "presence of uninhabited enum",
+    );
     let mut all_bytes = [0; 8];
     let byte_len = ord_byte_len(num_variants - 1);
     let used_bytes = &mut all_bytes[..byte_len];
@@ -70,7 +67,9 @@ where
     let ord = u64::from_le_bytes(all_bytes);
     ensure!(
         ord < num_variants as u64,
-        "malformed data, enum ordinal {} out of range 0..{}",
+        MalformedData,
+        None,
+        "enum ordinal {} out of range 0..{}",
         ord,
         num_variants,
     );
@@ -115,7 +114,9 @@ where
     while more {
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len uint",
+            MalformedData,
+            None,
+            "too many bytes in var len uint",
         );
 
         let mut buf = [0];
@@ -183,10 +184,11 @@ where
     let mut shift = 6;
 
     while more {
-        // TODO: should use crate-specific error types
         ensure!(
             shift < 128,
-            "malformed data: too many bytes in var len sint",
+            MalformedData,
+            None,
+            "too many bytes in var len sint",
         );
 
         let mut buf = [0];
-- 
2.43.0


From 28d00886c1693b99a0f30f59a7c692168378b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 15/16] fix: a recurse at the schema root is an illegal schema

Coding against it was reported as schema non-conformance.
---
 binschema/src/coder/coder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/binschema/src/coder/coder.rs b/binschema/src/coder/coder.rs
index cb9d2f1..9a8dae1 100644
--- a/binschema/src/coder/coder.rs
+++ b/binschema/src/coder/coder.rs
@@ -223,6 +223,17 @@ macro_rules! validate_top {
                     &ApiState::AutoFinish => unreachable!("{:#?}", $self.stack),
                     &ApiState::OptionUninitSomeness => unreachable!(),
                     &ApiState::SeqUninitLen => unreachable!(),
+                    &ApiState::Need if matches!(
+                        $top.schema,
+                        &Schema::Recurse(_)
+                    ) => {
+                        $self.broken = true;
+                        bail!(
+                            IllegalSchema,
+                            Some($self),
+                            "recurse past base of schema",
+                        )
+                    }
                     &ApiState::Need => bail!(
                         SchemaNonConformance,
                         Some($self),
-- 
2.43.0


From 99274b785fd2c90a3b0f743701df946112187f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 16/16] fix: a var len int beyond 128 bits is malformed data,
 not truncated

---
 FORMAT.txt               | 16 ++++++++++++++--
 binschema/src/var_len.rs | 20 ++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/FORMAT.txt b/FORMAT.txt
index 6d8d1e2..3d9b93f 100644
--- a/FORMAT.txt
+++ b/FORMAT.txt
@@ -231,7 +231,13 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+            let curr_7_bits = (curr_byte & LO_7_BITS) as u128;
+            let shifted = curr_7_bits << shift;
+            ensure!(
+                (shifted >> shift) == curr_7_bits,
+                "malformed data: var len uint out of range",
+            );
+            n |= shifted;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
@@ -321,7 +327,13 @@ Reference code:
             read.read_exact(&mut buf)?;
             let [curr_byte] = buf;
 
-            n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+            let curr_7_bits = (curr_byte & LO_7_BITS) as i128;
+            let shifted = curr_7_bits << shift;
+            ensure!(
+                (shifted >> shift) == curr_7_bits,
+                "malformed data: var len sint out of range",
+            );
+            n |= shifted;
             shift += 7;
             more = (curr_byte & MORE_BIT) != 0;
         }
diff --git a/binschema/src/var_len.rs b/binschema/src/var_len.rs
index 9d60d33..f99fdd9 100644
--- a/binschema/src/var_len.rs
+++ b/binschema/src/var_len.rs
@@ -123,7 +123,15 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as u128) << shift;
+        let curr_7_bits = (curr_byte & LO_7_BITS) as u128;
+        let shifted = curr_7_bits << shift;
+        ensure!(
+            (shifted >> shift) == curr_7_bits,
+            MalformedData,
+            None,
+            "var len uint out of range",
+        );
+        n |= shifted;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
@@ -195,7 +203,15 @@ where
         read.read_exact(&mut buf)?;
         let [curr_byte] = buf;
 
-        n |= ((curr_byte & LO_7_BITS) as i128) << shift;
+        let curr_7_bits = (curr_byte & LO_7_BITS) as i128;
+        let shifted = curr_7_bits << shift;
+        ensure!(
+            (shifted >> shift) == curr_7_bits,
+            MalformedData,
+            None,
+            "var len sint out of range",
+        );
+        n |= shifted;
         shift += 7;
         more = (curr_byte & MORE_BIT) != 0;
     }
-- 
2.43.0

