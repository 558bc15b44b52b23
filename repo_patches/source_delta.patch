From dc9831f338b51238120862545d013c9c540ac453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 01/29] fix: forward finish through the sink of Option so
 compound values are kept

---
 deser/src/de/impls.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index 014365c..ec19bc6 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -528,7 +528,10 @@ where
         let sink = Deserialize::deserialize_into(out.as_mut().unwrap());
         match sink {
             SinkHandle::Null(_) => sink,
-            sink => SinkHandle::boxed(NullIgnoringSink { sink }),
+            sink => SinkHandle::boxed(NullIgnoringSink {
+                sink,
+                forwarded: false,
+            }),
         }
     }
 
@@ -539,21 +542,29 @@ where
 
 struct NullIgnoringSink<'a> {
     sink: SinkHandle<'a>,
+    // set once a non null value was forwarded to the inner sink.  Only then
+    // the inner sink also needs to be finished.
+    forwarded: bool,
 }
 
 impl<'a> Sink for NullIgnoringSink<'a> {
     fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
         match atom {
             Atom::Null => Ok(()),
-            other => self.sink.atom(other, state),
+            other => {
+                self.forwarded = true;
+                self.sink.atom(other, state)
+            }
         }
     }
 
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.forwarded = true;
         self.sink.map(state)
     }
 
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        self.forwarded = true;
         self.sink.seq(state)
     }
 
@@ -565,6 +576,13 @@ impl<'a> Sink for NullIgnoringSink<'a> {
         self.sink.next_value(state)
     }
 
+    fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.forwarded {
+            self.sink.finish(state)?;
+        }
+        Ok(())
+    }
+
     fn descriptor(&self) -> &dyn Descriptor {
         self.sink.descriptor()
     }
-- 
2.43.0


From 4e97dc5632dd4a3c2f4b7817df3ba4f053ccd2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 02/29] fix: accept maps when deserializing into a HashMap

---
 deser/src/de/impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index ec19bc6..c18f9df 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -388,6 +388,10 @@ where
                 &DESCRIPTOR
             }
 
+            fn map(&mut self, _state: &DeserializerState) -> Result<(), Error> {
+                Ok(())
+            }
+
             fn next_key(&mut self, _state: &DeserializerState) -> Result<SinkHandle, Error> {
                 self.flush();
                 Ok(Deserialize::deserialize_into(&mut self.key))
-- 
2.43.0


From 1dc77cfe8fbdc3f19b380bb3a79263ebc4ee2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:46 +0000
Subject: [PATCH 03/29] fix: reject integers that only fit the target type by
 wrapping around

---
 deser/src/de/impls.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/deser/src/de/impls.rs b/deser/src/de/impls.rs
index c18f9df..1b668b9 100644
--- a/deser/src/de/impls.rs
+++ b/deser/src/de/impls.rs
@@ -86,30 +86,26 @@ macro_rules! int_sink {
 
             fn atom(&mut self, atom: Atom, state: &DeserializerState) -> Result<(), Error> {
                 match atom {
-                    Atom::U64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as u64 == value {
-                            **self = Some(truncated);
+                    Atom::U64(value) => match <$ty>::try_from(value) {
+                        Ok(value) => {
+                            **self = Some(value);
                             Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
                         }
-                    }
-                    Atom::I64(value) => {
-                        let truncated = value as $ty;
-                        if truncated as i64 == value {
-                            **self = Some(truncated);
+                        Err(_) => Err(Error::new(
+                            ErrorKind::OutOfRange,
+                            "value out of range for type",
+                        )),
+                    },
+                    Atom::I64(value) => match <$ty>::try_from(value) {
+                        Ok(value) => {
+                            **self = Some(value);
                             Ok(())
-                        } else {
-                            Err(Error::new(
-                                ErrorKind::OutOfRange,
-                                "value out of range for type",
-                            ))
                         }
-                    }
+                        Err(_) => Err(Error::new(
+                            ErrorKind::OutOfRange,
+                            "value out of range for type",
+                        )),
+                    },
                     other => self.unexpected_atom(other, state),
                 }
             }
-- 
2.43.0


From d897adfb60c90abb94367dc611cb44b1e196fe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 04/29] fix: report trailing commas in JSON sequences as error
 instead of panicking

---
 deser-json/src/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index afc9cae..f79e5e4 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -142,7 +142,9 @@ impl<'a> Deserializer<'a> {
                         Token::Colon => {
                             return Err(Error::new(ErrorKind::Unexpected, "unexpected colon"));
                         }
-                        Token::SeqEnd | Token::MapEnd => unreachable!(),
+                        Token::SeqEnd | Token::MapEnd => {
+                            return Err(Error::new(ErrorKind::Unexpected, "unexpected comma"));
+                        }
                     }
                 }
             }
-- 
2.43.0


From 3b208910504ec44a1a88a6577128c90e158ba99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:52 +0000
Subject: [PATCH 05/29] fix: reject JSON objects that end before the value of a
 key

---
 deser-json/src/de.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index f79e5e4..a2b3d01 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -67,7 +67,10 @@ impl<'a> Deserializer<'a> {
             // try to exit containers first
             match token {
                 Token::MapEnd => {
-                    if !matches!(stack.pop(), Some(ContainerState::Map { .. })) {
+                    if !matches!(
+                        stack.pop(),
+                        Some(ContainerState::Map { key_pos: true, .. })
+                    ) {
                         return Err(Error::new(ErrorKind::Unexpected, "unexpected end of map"));
                     }
                     driver.emit(Event::MapEnd)?;
-- 
2.43.0


From dfcf70dc80174d3efaf40937f27c64e34d3f6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 06/29] fix: do not overflow on JSON floats with an extremely
 small exponent

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index a2b3d01..e668c4a 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -614,7 +614,7 @@ impl<'a> Deserializer<'a> {
 fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
     let mut f = significand as f64;
     loop {
-        match POW10.get(exponent.abs() as usize) {
+        match POW10.get(exponent.unsigned_abs() as usize) {
             Some(&pow) => {
                 if exponent >= 0 {
                     f *= pow;
-- 
2.43.0


From 79102d306f58df1b7f317820022ac5dd8e293d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 07/29] fix: reject JSON strings that are not valid UTF-8

---
 deser-json/src/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index e668c4a..35add3d 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -204,10 +204,11 @@ impl<'a> Deserializer<'a> {
     }
 
     fn parse_str(&mut self) -> Result<&str, Error> {
-        fn result(bytes: &[u8]) -> &str {
-            // The input is assumed to be valid UTF-8 and the \u-escapes are
-            // checked along the way, so don't need to check here.
-            unsafe { str::from_utf8_unchecked(bytes) }
+        fn result(bytes: &[u8]) -> Result<&str, Error> {
+            // The \u-escapes are checked along the way but the input can be
+            // arbitrary bytes.
+            str::from_utf8(bytes)
+                .map_err(|_| Error::new(ErrorKind::Unexpected, "invalid UTF-8 in string"))
         }
 
         // Index of the first byte not yet copied into the scratch space.
@@ -231,11 +232,11 @@ impl<'a> Deserializer<'a> {
                         // copying.
                         let borrowed = &self.input[start..self.pos];
                         self.pos += 1;
-                        return Ok(result(borrowed));
+                        return result(borrowed);
                     } else {
                         self.buffer.extend_from_slice(&self.input[start..self.pos]);
                         self.pos += 1;
-                        return Ok(result(&self.buffer));
+                        return result(&self.buffer);
                     }
                 }
                 b'\\' => {
-- 
2.43.0


From 0fc411977d300d25ace0ffc8fda6601b6f66109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:25 +0000
Subject: [PATCH 08/29] fix: serialize chars to JSON as strings instead of
 their code point number

---
 deser-json/src/ser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deser-json/src/ser.rs b/deser-json/src/ser.rs
index a5786de..0352fe5 100644
--- a/deser-json/src/ser.rs
+++ b/deser-json/src/ser.rs
@@ -77,7 +77,7 @@ impl Serializer {
                     match event {
                         Event::Atom(Atom::Str(val)) => self.write_escaped_str(&val),
                         Event::Atom(Atom::Char(c)) => {
-                            self.write_escaped_str(&(c as u32).to_string())
+                            self.write_escaped_str(c.encode_utf8(&mut [0; 4]))
                         }
                         _ => unsupported!("JSON does not support this value for map keys"),
                     }
@@ -93,7 +93,7 @@ impl Serializer {
                     Atom::Bool(false) => self.write_str("false"),
                     Atom::Str(val) => self.write_escaped_str(&val),
                     Atom::Bytes(_val) => unsupported!("JSON doesn't support bytes"),
-                    Atom::Char(c) => self.write_escaped_str(&(c as u32).to_string()),
+                    Atom::Char(c) => self.write_escaped_str(c.encode_utf8(&mut [0; 4])),
                     Atom::U64(val) => {
                         #[cfg(feature = "speedups")]
                         {
-- 
2.43.0


From f2750797a3f586d444c2552993ebc4aa4b6522c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:29 +0000
Subject: [PATCH 09/29] fix: let a container level default also provide missing
 optional fields

---
 deser-derive/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 13784ad..d1edba1 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -70,7 +70,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 quote! {
                     ::deser::de::OwnedSink::deserialize()
                 }
-            } else if f.default().is_some() {
+            } else if f.default().is_some() || container_attrs.default().is_some() {
                 quote! {
                     ::deser::__derive::None
                 }
-- 
2.43.0


From ecd4b080a181a8d5ca685c69a78ec220f76378cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 10/29] fix: derive(Deserialize) requires Deserialize of
 generic parameters

---
 deser-derive/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index d1edba1..efb8577 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -462,7 +462,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Serialize);
+    let bound = syn::parse_quote!(::deser::Deserialize);
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     Ok(quote! {
@@ -470,7 +470,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                sink: ::deser::de::OwnedSink<#field_type #ty_generics>,
+                sink: ::deser::de::OwnedSink<#field_type>,
             }
 
             #[automatically_derived]
-- 
2.43.0


From 529394d76f1ebaae6ba3da6fb4c33879305c38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:16 +0000
Subject: [PATCH 11/29] fix: support container level defaults on generic
 structs

---
 deser-derive/src/de.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index efb8577..b6a31f4 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -122,7 +122,11 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
 
     let wrapper_generics = with_lifetime_bound(&input.generics, "'__a");
     let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
-    let bound = syn::parse_quote!(::deser::Deserialize);
+    let bound = if let Some(TypeDefault::Implicit) = container_attrs.default() {
+        syn::parse_quote!(::deser::Deserialize + ::deser::__derive::Default)
+    } else {
+        syn::parse_quote!(::deser::Deserialize)
+    };
     let bounded_where_clause = where_clause_with_bound(&input.generics, bound);
 
     let field_stage1_default = attrs
@@ -200,7 +204,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 need_container_default.into_iter().unzip();
             let type_default = match container_attrs.default().unwrap() {
                 TypeDefault::Implicit => quote! {
-                    <#ident as ::deser::__derive::Default>::default()
+                    <#ident #ty_generics as ::deser::__derive::Default>::default()
                 },
                 TypeDefault::Explicit(path) => quote! { #path() },
             };
-- 
2.43.0


From 5343c694d1b5889598f87cc8d84c12ac86efb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:41 +0000
Subject: [PATCH 12/29] fix: leave the path of a nested container when it ends
 during deserialization

---
 deser-path/src/de.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 9023b9b..490df79 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -18,6 +18,8 @@ pub struct PathSink<'a> {
     sink: SinkHandle<'a>,
     container: Container,
     set_segment: Option<PathSegment>,
+    // set if this sink pushed a segment for its children
+    pushed_segment: bool,
 }
 
 impl<'a> PathSink<'a> {
@@ -32,6 +34,7 @@ impl<'a> PathSink<'a> {
             sink,
             container: Container::None,
             set_segment: None,
+            pushed_segment: false,
         }
     }
 
@@ -59,6 +62,7 @@ impl<'a> Sink for PathSink<'a> {
     fn map(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed_segment = true;
         self.container = Container::Map(Rc::default());
         self.sink.map(state)
     }
@@ -66,6 +70,7 @@ impl<'a> Sink for PathSink<'a> {
     fn seq(&mut self, state: &DeserializerState) -> Result<(), Error> {
         self.set_segment(state);
         state.get_mut::<Path>().segments.push(PathSegment::Unknown);
+        self.pushed_segment = true;
         self.container = Container::Seq(0);
         self.sink.seq(state)
     }
@@ -79,6 +84,7 @@ impl<'a> Sink for PathSink<'a> {
                     _ => unreachable!(),
                 },
                 set_segment: None,
+                pushed_segment: false,
             })
         })
     }
@@ -98,11 +104,16 @@ impl<'a> Sink for PathSink<'a> {
                 sink,
                 container: Container::None,
                 set_segment,
+                pushed_segment: false,
             })
         })
     }
 
     fn finish(&mut self, state: &DeserializerState) -> Result<(), Error> {
+        if self.pushed_segment {
+            self.pushed_segment = false;
+            state.get_mut::<Path>().segments.pop();
+        }
         self.sink.finish(state)
     }
 
-- 
2.43.0


From 69179911b9892c8ed48a09fc0d16f2c7a7449da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 13/29] fix: use an unknown path segment for keys that are not
 strings or integers

---
 deser-path/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 490df79..98f14eb 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -92,7 +92,12 @@ impl<'a> Sink for PathSink<'a> {
     fn next_value(&mut self, state: &DeserializerState) -> Result<SinkHandle, Error> {
         let set_segment = match self.container {
             Container::None => None,
-            Container::Map(ref captured_key) => captured_key.borrow_mut().take(),
+            Container::Map(ref captured_key) => Some(
+                captured_key
+                    .borrow_mut()
+                    .take()
+                    .unwrap_or(PathSegment::Unknown),
+            ),
             Container::Seq(ref mut index) => {
                 let old_index = *index;
                 *index += 1;
-- 
2.43.0


From c2c903a8c9bfc81a04c2bce1ad441c83478df22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:45 +0000
Subject: [PATCH 14/29] fix: do not turn negative map keys into huge path
 indexes

---
 deser-path/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-path/src/de.rs b/deser-path/src/de.rs
index 98f14eb..388289b 100644
--- a/deser-path/src/de.rs
+++ b/deser-path/src/de.rs
@@ -52,7 +52,7 @@ impl<'a> Sink for PathSink<'a> {
             *capture.borrow_mut() = match atom {
                 Atom::Str(ref value) => Some(PathSegment::Key(value.to_string())),
                 Atom::U64(value) => Some(PathSegment::Index(value as usize)),
-                Atom::I64(value) => Some(PathSegment::Index(value as usize)),
+                Atom::I64(value) if value >= 0 => Some(PathSegment::Index(value as usize)),
                 _ => None,
             };
         }
-- 
2.43.0


From a9d4864019ed8f3f495c3df1ea4d6d6d71f7a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:07 +0000
Subject: [PATCH 15/29] fix: keep descriptors and optionality when wrapping
 with PathSerializable

---
 deser-path/src/ser.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/deser-path/src/ser.rs b/deser-path/src/ser.rs
index 708ce8b..275dd46 100644
--- a/deser-path/src/ser.rs
+++ b/deser-path/src/ser.rs
@@ -5,7 +5,7 @@ use std::rc::Rc;
 use deser::ser::{
     Chunk, MapEmitter, SeqEmitter, Serialize, SerializeHandle, SerializerState, StructEmitter,
 };
-use deser::{Atom, Error};
+use deser::{Atom, Descriptor, Error};
 
 use crate::{Path, PathSegment};
 
@@ -42,6 +42,14 @@ impl<'a> Serialize for PathSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct PathStructEmitter<'a> {
@@ -147,6 +155,14 @@ impl<'a> Serialize for SegmentPushingSerializable<'a> {
         path.segments.pop();
         Ok(())
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
 
 struct SegmentCollectingSerializable<'a> {
@@ -172,4 +188,12 @@ impl<'a> Serialize for SegmentCollectingSerializable<'a> {
     fn finish(&self, state: &SerializerState) -> Result<(), Error> {
         self.serializable.finish(state)
     }
+
+    fn is_optional(&self) -> bool {
+        self.serializable.is_optional()
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        self.serializable.descriptor()
+    }
 }
-- 
2.43.0


From a6f462f5e29e87145f5a5533b6aa37867fc3f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 16/29] fix: forward finish, optionality and descriptors
 through Option, references and Box

---
 deser/src/ser/impls.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/deser/src/ser/impls.rs b/deser/src/ser/impls.rs
index 18e6642..428546e 100644
--- a/deser/src/ser/impls.rs
+++ b/deser/src/ser/impls.rs
@@ -323,6 +323,13 @@ where
             None => Ok(Chunk::Atom(Atom::Null)),
         }
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        match self {
+            Some(value) => value.finish(state),
+            None => Ok(()),
+        }
+    }
 }
 
 macro_rules! serialize_for_tuple {
@@ -395,16 +402,52 @@ impl<'a, T: Serialize> Serialize for &'a T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
 }
 
 impl<'a, T: Serialize> Serialize for &'a mut T {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(*self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(*self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(*self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(*self)
+    }
 }
 
 impl<T: Serialize> Serialize for Box<T> {
     fn serialize(&self, state: &SerializerState) -> Result<Chunk, Error> {
         Serialize::serialize(&**self, state)
     }
+
+    fn finish(&self, state: &SerializerState) -> Result<(), Error> {
+        Serialize::finish(&**self, state)
+    }
+
+    fn is_optional(&self) -> bool {
+        Serialize::is_optional(&**self)
+    }
+
+    fn descriptor(&self) -> &dyn Descriptor {
+        Serialize::descriptor(&**self)
+    }
 }
-- 
2.43.0


From 43f344d118978c85c0dfc1359bf92c013b199345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 17/29] fix: drop child sinks before the container sinks they
 borrow from are used or dropped

---
 deser/src/de/driver.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 10c18cf..9afc47e 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -59,6 +59,11 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     fn update_current_sink(&mut self) -> Result<(), Error> {
+        // the sink of the previous child borrows from the container sink and
+        // must not be around any more when the container is used again.
+        if !self.sink_stack.is_empty() {
+            self.current_sink = None;
+        }
         match self.sink_stack.last_mut() {
             Some((map_sink, Layer::Map(ref mut is_key))) => {
                 let next_sink = if *is_key {
@@ -79,6 +84,18 @@ impl<'a> DeserializeDriver<'a> {
         Ok(())
     }
 
+    fn finish_container(&mut self) -> Result<(), Error> {
+        // same as in `update_current_sink`: the last child goes first.
+        self.current_sink = None;
+        let rv = match self.sink_stack.last_mut() {
+            Some((sink, _)) => sink.finish(&self.state),
+            None => Ok(()),
+        };
+        self.state.descriptor_stack.pop();
+        self.current_sink = self.sink_stack.pop().map(|(sink, _)| sink);
+        rv
+    }
+
     fn _emit(&mut self, event: Event) -> Result<(), Error> {
         macro_rules! current_sink {
             () => {{
@@ -104,12 +121,8 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
             }
-            Event::MapEnd => match self.sink_stack.pop() {
-                Some((mut map_sink, Layer::Map(_))) => {
-                    map_sink.finish(&self.state)?;
-                    self.state.descriptor_stack.pop();
-                    self.current_sink = Some(map_sink);
-                }
+            Event::MapEnd => match self.sink_stack.last() {
+                Some((_, Layer::Map(_))) => self.finish_container()?,
                 _ => panic!("not inside a MapSink"),
             },
             Event::SeqStart => {
@@ -123,12 +136,8 @@ impl<'a> DeserializeDriver<'a> {
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
             }
-            Event::SeqEnd => match self.sink_stack.pop() {
-                Some((mut seq_sink, Layer::Seq)) => {
-                    seq_sink.finish(&self.state)?;
-                    self.state.descriptor_stack.pop();
-                    self.current_sink = Some(seq_sink);
-                }
+            Event::SeqEnd => match self.sink_stack.last() {
+                Some((_, Layer::Seq)) => self.finish_container()?,
                 _ => panic!("not inside a SeqSink"),
             },
         }
@@ -139,6 +148,8 @@ impl<'a> DeserializeDriver<'a> {
 
 impl<'a> Drop for DeserializeDriver<'a> {
     fn drop(&mut self) {
+        // sinks borrow from the sinks below them
+        self.current_sink = None;
         unsafe {
             while let Some(_item) = self.sink_stack.pop() {
                 // drop in inverse order
-- 
2.43.0


From 01d7991e9a933ecd8cceb6e7e1ae7c773776b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 18/29] fix: drop serializables before the emitters they borrow
 from

---
 deser/src/ser/driver.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/deser/src/ser/driver.rs b/deser/src/ser/driver.rs
index c420421..e20cd69 100644
--- a/deser/src/ser/driver.rs
+++ b/deser/src/ser/driver.rs
@@ -59,11 +59,20 @@ enum Emitter {
 impl<'a> Drop for SerializeDriver<'a> {
     fn drop(&mut self) {
         self.next_event.take();
-        while let Some(_emitter) = self.emitter_stack.pop() {
-            // drop in inverse order
-        }
-        while let Some(_emitter) = self.serializable_stack.pop() {
-            // drop in inverse order
+        // drop in inverse order.  A serializable can borrow from the emitter that
+        // produced it and an emitter borrows from its serializable.
+        while let Some(state) = self.state_stack.pop() {
+            match state {
+                DriverState::SeqEmitterAdvance
+                | DriverState::MapEmitterNextKey
+                | DriverState::MapEmitterNextValue
+                | DriverState::StructEmitterAdvance
+                | DriverState::PopEmitter => {
+                    self.emitter_stack.pop();
+                }
+                DriverState::Serialize | DriverState::FinishSerialize => {}
+            }
+            self.serializable_stack.pop();
         }
         unsafe {
             ManuallyDrop::drop(&mut self.serializable_stack);
-- 
2.43.0


From f593afde05155fbdb4ddaec8d68c829052a4a736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 19/29] fix: do not loop forever in ToDebug when the formatter
 fails

---
 deser-debug/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/deser-debug/src/lib.rs b/deser-debug/src/lib.rs
index 648211d..97f531d 100644
--- a/deser-debug/src/lib.rs
+++ b/deser-debug/src/lib.rs
@@ -88,7 +88,11 @@ fn dump<'a, 'f>(
                         map.value(&inner);
                     }
                     is_key = !is_key;
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    rest = match inner.1.load(atomic::Ordering::Relaxed) {
+                        // nothing was consumed: the inner formatting failed
+                        0 => return Err(fmt::Error),
+                        consumed => &rest[consumed..],
+                    };
                 }
                 map.finish()?;
             }
@@ -107,7 +111,11 @@ fn dump<'a, 'f>(
                     }
                     let inner = Helper(rest, AtomicUsize::default());
                     list.entry(&inner);
-                    rest = &rest[inner.1.load(atomic::Ordering::Relaxed)..];
+                    rest = match inner.1.load(atomic::Ordering::Relaxed) {
+                        // nothing was consumed: the inner formatting failed
+                        0 => return Err(fmt::Error),
+                        consumed => &rest[consumed..],
+                    };
                 }
                 list.finish()?;
             }
-- 
2.43.0


From 1b03578aee09fef2711ccb3f7269219044cb4818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 20/29] fix: parse JSON floats with correct rounding up to the
 largest float

---
 deser-json/src/de.rs | 74 +++++++++++---------------------------------
 1 file changed, 18 insertions(+), 56 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 35add3d..15e9754 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -612,70 +612,32 @@ impl<'a> Deserializer<'a> {
     }
 }
 
-fn f64_from_parts(nonnegative: bool, significand: u64, mut exponent: i32) -> Result<f64, Error> {
-    let mut f = significand as f64;
-    loop {
-        match POW10.get(exponent.unsigned_abs() as usize) {
-            Some(&pow) => {
-                if exponent >= 0 {
-                    f *= pow;
-                    if f.is_infinite() {
-                        return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
-                    }
-                } else {
-                    f /= pow;
-                }
-                break;
-            }
-            None => {
-                if f == 0.0 {
-                    break;
-                }
-                if exponent >= 0 {
-                    return Err(Error::new(ErrorKind::Unexpected, "unexpected float"));
-                }
-                f /= 1e308;
-                exponent += 308;
+fn f64_from_parts(nonnegative: bool, significand: u64, exponent: i32) -> Result<f64, Error> {
+    let f = match POW10.get(exponent.unsigned_abs() as usize) {
+        // Both parts are exact, so a single operation rounds correctly.
+        Some(&pow) if significand < 1 << 53 => {
+            if exponent >= 0 {
+                significand as f64 * pow
+            } else {
+                significand as f64 / pow
             }
         }
+        // Scaling would round more than once or overflow early.
+        _ => format!("{}e{}", significand, exponent)
+            .parse()
+            .map_err(|_| Error::new(ErrorKind::Unexpected, "unexpected float"))?,
+    };
+    if f.is_infinite() {
+        return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
     }
     Ok(if nonnegative { f } else { -f })
 }
 
-// Clippy bug: https://github.com/rust-lang/rust-clippy/issues/5201
-#[allow(clippy::excessive_precision)]
-static POW10: [f64; 309] = [
+// The powers of ten that can be represented exactly.
+static POW10: [f64; 23] = [
     1e000, 1e001, 1e002, 1e003, 1e004, 1e005, 1e006, 1e007, 1e008, 1e009, //
     1e010, 1e011, 1e012, 1e013, 1e014, 1e015, 1e016, 1e017, 1e018, 1e019, //
-    1e020, 1e021, 1e022, 1e023, 1e024, 1e025, 1e026, 1e027, 1e028, 1e029, //
-    1e030, 1e031, 1e032, 1e033, 1e034, 1e035, 1e036, 1e037, 1e038, 1e039, //
-    1e040, 1e041, 1e042, 1e043, 1e044, 1e045, 1e046, 1e047, 1e048, 1e049, //
-    1e050, 1e051, 1e052, 1e053, 1e054, 1e055, 1e056, 1e057, 1e058, 1e059, //
-    1e060, 1e061, 1e062, 1e063, 1e064, 1e065, 1e066, 1e067, 1e068, 1e069, //
-    1e070, 1e071, 1e072, 1e073, 1e074, 1e075, 1e076, 1e077, 1e078, 1e079, //
-    1e080, 1e081, 1e082, 1e083, 1e084, 1e085, 1e086, 1e087, 1e088, 1e089, //
-    1e090, 1e091, 1e092, 1e093, 1e094, 1e095, 1e096, 1e097, 1e098, 1e099, //
-    1e100, 1e101, 1e102, 1e103, 1e104, 1e105, 1e106, 1e107, 1e108, 1e109, //
-    1e110, 1e111, 1e112, 1e113, 1e114, 1e115, 1e116, 1e117, 1e118, 1e119, //
-    1e120, 1e121, 1e122, 1e123, 1e124, 1e125, 1e126, 1e127, 1e128, 1e129, //
-    1e130, 1e131, 1e132, 1e133, 1e134, 1e135, 1e136, 1e137, 1e138, 1e139, //
-    1e140, 1e141, 1e142, 1e143, 1e144, 1e145, 1e146, 1e147, 1e148, 1e149, //
-    1e150, 1e151, 1e152, 1e153, 1e154, 1e155, 1e156, 1e157, 1e158, 1e159, //
-    1e160, 1e161, 1e162, 1e163, 1e164, 1e165, 1e166, 1e167, 1e168, 1e169, //
-    1e170, 1e171, 1e172, 1e173, 1e174, 1e175, 1e176, 1e177, 1e178, 1e179, //
-    1e180, 1e181, 1e182, 1e183, 1e184, 1e185, 1e186, 1e187, 1e188, 1e189, //
-    1e190, 1e191, 1e192, 1e193, 1e194, 1e195, 1e196, 1e197, 1e198, 1e199, //
-    1e200, 1e201, 1e202, 1e203, 1e204, 1e205, 1e206, 1e207, 1e208, 1e209, //
-    1e210, 1e211, 1e212, 1e213, 1e214, 1e215, 1e216, 1e217, 1e218, 1e219, //
-    1e220, 1e221, 1e222, 1e223, 1e224, 1e225, 1e226, 1e227, 1e228, 1e229, //
-    1e230, 1e231, 1e232, 1e233, 1e234, 1e235, 1e236, 1e237, 1e238, 1e239, //
-    1e240, 1e241, 1e242, 1e243, 1e244, 1e245, 1e246, 1e247, 1e248, 1e249, //
-    1e250, 1e251, 1e252, 1e253, 1e254, 1e255, 1e256, 1e257, 1e258, 1e259, //
-    1e260, 1e261, 1e262, 1e263, 1e264, 1e265, 1e266, 1e267, 1e268, 1e269, //
-    1e270, 1e271, 1e272, 1e273, 1e274, 1e275, 1e276, 1e277, 1e278, 1e279, //
-    1e280, 1e281, 1e282, 1e283, 1e284, 1e285, 1e286, 1e287, 1e288, 1e289, //
-    1e290, 1e291, 1e292, 1e293, 1e294, 1e295, 1e296, 1e297, 1e298, 1e299, //
-    1e300, 1e301, 1e302, 1e303, 1e304, 1e305, 1e306, 1e307, 1e308,
+    1e020, 1e021, 1e022,
 ];
 
 const CT: bool = true; // control character \x00..=\x1F
-- 
2.43.0


From b0dc0cbc16b070ef7733fc73018b4948aac70c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 21/29] fix: do not drop digits of long JSON numbers before
 rounding

---
 deser-json/src/de.rs | 64 +++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 15e9754..47633b9 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -30,6 +30,7 @@ macro_rules! overflow {
 pub struct Deserializer<'a> {
     input: &'a [u8],
     pos: usize,
+    number_start: usize,
     buffer: Vec<u8>,
 }
 
@@ -44,6 +45,7 @@ impl<'a> Deserializer<'a> {
         Deserializer {
             input,
             pos: 0,
+            number_start: 0,
             buffer: Vec::new(),
         }
     }
@@ -437,7 +439,7 @@ impl<'a> Deserializer<'a> {
                     return self.parse_exponent(nonnegative, significand, exponent);
                 }
                 _ => {
-                    return f64_from_parts(nonnegative, significand, exponent);
+                    return self.f64_from_parts(nonnegative, significand, exponent);
                 }
             }
         }
@@ -501,7 +503,7 @@ impl<'a> Deserializer<'a> {
 
         match self.peek_or_nul() {
             b'e' | b'E' => self.parse_exponent(nonnegative, significand, exponent),
-            _ => f64_from_parts(nonnegative, significand, exponent),
+            _ => self.f64_from_parts(nonnegative, significand, exponent),
         }
     }
 
@@ -552,7 +554,7 @@ impl<'a> Deserializer<'a> {
             starting_exp.saturating_sub(exp)
         };
 
-        f64_from_parts(nonnegative, significand, final_exp)
+        self.f64_from_parts(nonnegative, significand, final_exp)
     }
 
     // This cold code should not be inlined into the middle of the hot
@@ -576,11 +578,46 @@ impl<'a> Deserializer<'a> {
         Ok(if nonnegative { 0.0 } else { -0.0 })
     }
 
+    /// Converts the number that was just parsed to the nearest float.
+    fn f64_from_parts(
+        &self,
+        nonnegative: bool,
+        significand: u64,
+        exponent: i32,
+    ) -> Result<f64, Error> {
+        let f = match POW10.get(exponent.unsigned_abs() as usize) {
+            // Both parts are exact, so a single operation rounds correctly.
+            Some(&pow) if significand < 1 << 53 => {
+                let f = if exponent >= 0 {
+                    significand as f64 * pow
+                } else {
+                    significand as f64 / pow
+                };
+                if nonnegative {
+                    f
+                } else {
+                    -f
+                }
+            }
+            // Scaling would round more than once or overflow early, and the
+            // significand might lack digits.
+            _ => str::from_utf8(&self.input[self.number_start..self.pos])
+                .ok()
+                .and_then(|number| number.parse::<f64>().ok())
+                .ok_or_else(|| Error::new(ErrorKind::Unexpected, "unexpected float"))?,
+        };
+        if f.is_infinite() {
+            return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
+        }
+        Ok(f)
+    }
+
     fn next_token(&mut self) -> Result<Token, Error> {
         let peek = match self.parse_whitespace() {
             Some(b) => b,
             None => return Err(Error::new(ErrorKind::EndOfFile, "unexpected end of file")),
         };
+        self.number_start = self.pos;
         self.bump();
         match peek {
             b'"' => self.parse_str().map(Token::Str),
@@ -612,27 +649,6 @@ impl<'a> Deserializer<'a> {
     }
 }
 
-fn f64_from_parts(nonnegative: bool, significand: u64, exponent: i32) -> Result<f64, Error> {
-    let f = match POW10.get(exponent.unsigned_abs() as usize) {
-        // Both parts are exact, so a single operation rounds correctly.
-        Some(&pow) if significand < 1 << 53 => {
-            if exponent >= 0 {
-                significand as f64 * pow
-            } else {
-                significand as f64 / pow
-            }
-        }
-        // Scaling would round more than once or overflow early.
-        _ => format!("{}e{}", significand, exponent)
-            .parse()
-            .map_err(|_| Error::new(ErrorKind::Unexpected, "unexpected float"))?,
-    };
-    if f.is_infinite() {
-        return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
-    }
-    Ok(if nonnegative { f } else { -f })
-}
-
 // The powers of ten that can be represented exactly.
 static POW10: [f64; 23] = [
     1e000, 1e001, 1e002, 1e003, 1e004, 1e005, 1e006, 1e007, 1e008, 1e009, //
-- 
2.43.0


From 949ed2903228fa1e149015f8896146e1a063fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 22/29] fix: report JSON numbers with a huge exponent as out of
 range

---
 deser-json/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser-json/src/de.rs b/deser-json/src/de.rs
index 47633b9..d809942 100644
--- a/deser-json/src/de.rs
+++ b/deser-json/src/de.rs
@@ -569,7 +569,7 @@ impl<'a> Deserializer<'a> {
     ) -> Result<f64, Error> {
         // Error instead of +/- infinity.
         if significand != 0 && positive_exp {
-            return Err(Error::new(ErrorKind::Unexpected, "infinity takes no sign"));
+            return Err(Error::new(ErrorKind::OutOfRange, "infinite float"));
         }
 
         while let b'0'..=b'9' = self.peek_or_nul() {
-- 
2.43.0


From 571fc76929c05be96e9c9350fb574c1170c58337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 23/29] fix: report malformed deser attributes instead of
 ignoring them

---
 deser-derive/src/attr.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index eeb20f0..6e4f038 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -47,7 +47,15 @@ pub struct ContainerAttrs<'a> {
     skip_serializing_optionals: bool,
 }
 
-pub fn get_meta_items(attr: &syn::Attribute) -> syn::Result<Vec<syn::NestedMeta>> {
+fn get_all_meta_items(attrs: &[syn::Attribute]) -> syn::Result<Vec<syn::NestedMeta>> {
+    let mut rv = Vec::new();
+    for attr in attrs {
+        rv.extend(get_meta_items(attr)?);
+    }
+    Ok(rv)
+}
+
+fn get_meta_items(attr: &syn::Attribute) -> syn::Result<Vec<syn::NestedMeta>> {
     if !attr.path.is_ident("deser") {
         return Ok(Vec::new());
     }
@@ -102,7 +110,7 @@ impl<'a> ContainerAttrs<'a> {
             skip_serializing_optionals: false,
         };
 
-        for meta_item in input.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&input.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename_all") => {
@@ -266,7 +274,7 @@ impl<'a> ContainerAttrs<'a> {
 }
 
 pub fn ensure_no_field_attrs(field: &syn::Field) -> syn::Result<()> {
-    if let Some(first) = field.attrs.iter().flat_map(get_meta_items).flatten().next() {
+    if let Some(first) = get_all_meta_items(&field.attrs)?.first() {
         Err(syn::Error::new_spanned(first, "unsupported attribute"))
     } else {
         Ok(())
@@ -293,7 +301,7 @@ impl<'a> FieldAttrs<'a> {
             skip_serializing_if: None,
         };
 
-        for meta_item in field.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&field.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
@@ -406,7 +414,7 @@ impl<'a> EnumVariantAttrs<'a> {
             aliases: Vec::new(),
         };
 
-        for meta_item in variant.attrs.iter().flat_map(get_meta_items).flatten() {
+        for meta_item in get_all_meta_items(&variant.attrs)? {
             if let syn::NestedMeta::Meta(meta) = meta_item {
                 match &meta {
                     syn::Meta::NameValue(nv) if nv.path.is_ident("rename") => {
-- 
2.43.0


From a101f19d7ecc71194bb855d3126fb31588e9abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:47 +0000
Subject: [PATCH 24/29] fix: make derives independent of the names in scope

---
 deser-derive/src/de.rs  | 6 +++---
 deser-derive/src/ser.rs | 6 +++---
 deser/src/lib.rs        | 1 +
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index b6a31f4..081529b 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -216,7 +216,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                 ].iter().any(|x| *x) {
                     let __default = #type_default;
                     #(
-                        #sink_name = #sink_name.or_else(|| Some(__default.#original_name));
+                        #sink_name = #sink_name.or_else(|| ::deser::__derive::Some(__default.#original_name));
                     )*
                 }
             })
@@ -232,7 +232,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         const #dummy: () = {
             struct __Sink #wrapper_impl_generics #where_clause {
                 slot: &'__a mut ::deser::__derive::Option<#ident #ty_generics>,
-                key: ::deser::__derive::Option<String>,
+                key: ::deser::__derive::Option<::deser::__derive::String>,
                 #(
                     #sink_fieldname: #sink_fieldty,
                 )*
@@ -527,7 +527,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
                 fn finish(&mut self, __state: &::deser::de::DeserializerState) -> ::deser::__derive::Result<()> {
                     self.sink.borrow_mut().finish(__state)?;
                     *self.slot = self.sink.take().map(#ident);
-                    Ok(())
+                    ::deser::__derive::Ok(())
                 }
 
                 fn descriptor(&self) -> &dyn ::deser::Descriptor {
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 79206d8..2ab1089 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -105,7 +105,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                         if self.nested_emitter_exhausted {
                             self.nested_emitter = match ::deser::ser::Serialize::serialize(&self.data.#name, __state)? {
                                 ::deser::ser::Chunk::Struct(__inner) => {
-                                    Some(__inner)
+                                    ::deser::__derive::Some(__inner)
                                 }
                                 _ => return ::deser::__derive::Err(::deser::Error::new(
                                     ::deser::ErrorKind::Unexpected,
@@ -157,7 +157,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
                     &__Descriptor
                 }
                 fn serialize(&self, __state: &::deser::ser::SerializerState) -> ::deser::__derive::Result<::deser::ser::Chunk> {
-                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(Box::new(__StructEmitter {
+                    ::deser::__derive::Ok(::deser::ser::Chunk::Struct(::deser::__derive::Box::new(__StructEmitter {
                         data: self,
                         index: 0,
                         #temp_emitter_init
@@ -182,7 +182,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
             #[automatically_derived]
             impl #wrapper_impl_generics ::deser::ser::StructEmitter for __StructEmitter #wrapper_ty_generics #bounded_where_clause {
                 fn next(&mut self, __state: &::deser::ser::SerializerState)
-                    -> ::deser::__derive::Result<::deser::__derive::Option<(deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
+                    -> ::deser::__derive::Result<::deser::__derive::Option<(::deser::__derive::StrCow, ::deser::ser::SerializeHandle)>>
                 {
                     #[allow(clippy::never_loop)]
                     loop {
diff --git a/deser/src/lib.rs b/deser/src/lib.rs
index f18959b..ee89286 100644
--- a/deser/src/lib.rs
+++ b/deser/src/lib.rs
@@ -77,6 +77,7 @@ pub mod __derive {
     pub use std::default::Default;
     pub use std::option::Option::{self, None, Some};
     pub use std::result::Result::{Err, Ok};
+    pub use std::string::String;
     pub type Result<T> = std::result::Result<T, super::Error>;
     pub type StrCow<'a> = Cow<'a, str>;
 
-- 
2.43.0


From 882dcd339dcf9945339b8559fe94121e314ac23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 25/29] fix: derive for raw identifiers

---
 deser-derive/src/attr.rs | 8 +++++---
 deser-derive/src/de.rs   | 9 +++++----
 deser-derive/src/ser.rs  | 7 ++++---
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 6e4f038..7b4bcdc 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -1,5 +1,7 @@
 use std::borrow::Cow;
 
+use syn::ext::IdentExt;
+
 #[derive(Copy, Clone)]
 #[allow(clippy::enum_variant_names)]
 pub enum RenameAll {
@@ -173,12 +175,12 @@ impl<'a> ContainerAttrs<'a> {
     pub fn container_name(&self) -> String {
         match self.rename {
             Some(ref name) => name.clone(),
-            None => self.ident.to_string(),
+            None => self.ident.unraw().to_string(),
         }
     }
 
     pub fn get_field_name(&self, field: &syn::Field) -> String {
-        let name = field.ident.as_ref().unwrap().to_string();
+        let name = field.ident.as_ref().unwrap().unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::LowerCase | RenameAll::SnakeCase => name,
@@ -230,7 +232,7 @@ impl<'a> ContainerAttrs<'a> {
     }
 
     pub fn get_variant_name(&self, variant: &syn::Variant) -> String {
-        let name = variant.ident.to_string();
+        let name = variant.ident.unraw().to_string();
         if let Some(rename_all) = self.rename_all {
             match rename_all {
                 RenameAll::PascalCase => name,
diff --git a/deser-derive/src/de.rs b/deser-derive/src/de.rs
index 081529b..f7e0b14 100644
--- a/deser-derive/src/de.rs
+++ b/deser-derive/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::HashSet;
 
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{
     ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs, TypeDefault,
@@ -27,7 +28,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -43,7 +44,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
         .iter()
         .map(|x| {
             syn::Ident::new(
-                &format!("field_{}", x.field().ident.as_ref().unwrap()),
+                &format!("field_{}", x.field().ident.as_ref().unwrap().unraw()),
                 Span::call_site(),
             )
         })
@@ -341,7 +342,7 @@ pub fn derive_enum(
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -451,7 +452,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_DESERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
diff --git a/deser-derive/src/ser.rs b/deser-derive/src/ser.rs
index 2ab1089..0f2fe92 100644
--- a/deser-derive/src/ser.rs
+++ b/deser-derive/src/ser.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 
 use crate::attr::{ensure_no_field_attrs, ContainerAttrs, EnumVariantAttrs, FieldAttrs};
 use crate::bound::{where_clause_with_bound, with_lifetime_bound};
@@ -23,7 +24,7 @@ fn derive_struct(input: &syn::DeriveInput, fields: &syn::FieldsNamed) -> syn::Re
     let ident = &input.ident;
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -210,7 +211,7 @@ fn derive_enum(input: &syn::DeriveInput, enumeration: &syn::DataEnum) -> syn::Re
 
     let ident = &input.ident;
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
@@ -261,7 +262,7 @@ fn derive_newtype_struct(input: &syn::DeriveInput, field: &syn::Field) -> syn::R
     let ident = &input.ident;
     let (impl_generics, ty_generics, _) = input.generics.split_for_impl();
     let dummy = syn::Ident::new(
-        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident),
+        &format!("_DESER_SERIALIZE_IMPL_FOR_{}", ident.unraw()),
         Span::call_site(),
     );
 
-- 
2.43.0


From 71b2ce4abbdcfadeb8cb52749930ba4682d7003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 26/29] fix: tie DeserializeDriver::from_sink to the lifetime
 of the sink

---
 deser/src/de/driver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index 9afc47e..eafbfe8 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -32,7 +32,7 @@ impl<'a> DeserializeDriver<'a> {
     }
 
     /// Creates a new deserializer driver from a sink.
-    pub fn from_sink(sink: SinkHandle) -> DeserializeDriver<'a> {
+    pub fn from_sink(sink: SinkHandle<'a>) -> DeserializeDriver<'a> {
         DeserializeDriver {
             state: DeserializerState {
                 extensions: Extensions::default(),
-- 
2.43.0


From 1a05586843fd1f0ed736e6de998877a6ff49a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 27/29] fix: do not let safe code replace the sink inside an
 OwnedSink

---
 deser/src/de/owned.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deser/src/de/owned.rs b/deser/src/de/owned.rs
index 1667cdf..4197e4e 100644
--- a/deser/src/de/owned.rs
+++ b/deser/src/de/owned.rs
@@ -2,7 +2,7 @@ use std::mem::{transmute, ManuallyDrop};
 use std::ops::{Deref, DerefMut};
 use std::ptr::NonNull;
 
-use crate::de::{Deserialize, SinkHandle};
+use crate::de::{Deserialize, Sink, SinkHandle};
 
 struct NonuniqueBox<T: ?Sized> {
     ptr: NonNull<T>,
@@ -111,14 +111,14 @@ impl<T: Deserialize> OwnedSink<T> {
 
     /// Immutably borrows from an owned sink.
     #[allow(clippy::should_implement_trait)]
-    pub fn borrow(&self) -> &SinkHandle<'_> {
-        unsafe { extend_lifetime!(&self.sink, &SinkHandle<'_>) }
+    pub fn borrow(&self) -> &dyn Sink {
+        &**self.sink
     }
 
     /// Mutably borrows from the owned sink.
     #[allow(clippy::should_implement_trait)]
-    pub fn borrow_mut(&mut self) -> &mut SinkHandle<'_> {
-        unsafe { extend_lifetime!(&mut self.sink, &mut SinkHandle<'_>) }
+    pub fn borrow_mut(&mut self) -> &mut dyn Sink {
+        &mut **self.sink
     }
 
     /// Takes the value produced by the sink.
-- 
2.43.0


From 11522b9e035cb128e8492f5485d0e29248bfcdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:46 +0000
Subject: [PATCH 28/29] fix: descriptors of open containers dangled when a sink
 replaced its descriptor

---
 deser/src/de/driver.rs   | 16 +++++++---------
 deser/src/de/mod.rs      | 10 +++++++---
 deser/src/descriptors.rs | 31 +++++++++++++++++++++++++++++++
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/deser/src/de/driver.rs b/deser/src/de/driver.rs
index eafbfe8..29e82af 100644
--- a/deser/src/de/driver.rs
+++ b/deser/src/de/driver.rs
@@ -1,7 +1,8 @@
+use std::marker::PhantomData;
 use std::mem::ManuallyDrop;
 
 use crate::de::{Deserialize, DeserializerState, SinkHandle};
-use crate::descriptors::Descriptor;
+use crate::descriptors::DescriptorSnapshot;
 use crate::error::Error;
 use crate::event::Event;
 use crate::extensions::Extensions;
@@ -37,6 +38,7 @@ impl<'a> DeserializeDriver<'a> {
             state: DeserializerState {
                 extensions: Extensions::default(),
                 descriptor_stack: Vec::with_capacity(STACK_CAPACITY),
+                _marker: PhantomData,
             },
             sink_stack: ManuallyDrop::new(Vec::with_capacity(STACK_CAPACITY)),
             current_sink: Some(unsafe { extend_lifetime!(sink, SinkHandle<'_>) }),
@@ -113,10 +115,8 @@ impl<'a> DeserializeDriver<'a> {
             Event::MapStart => {
                 let current_sink = current_sink!();
                 current_sink.map(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor = DescriptorSnapshot::of(current_sink.descriptor());
+                self.state.descriptor_stack.push(descriptor);
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Map(true)));
                 return Ok(());
@@ -128,10 +128,8 @@ impl<'a> DeserializeDriver<'a> {
             Event::SeqStart => {
                 let current_sink = current_sink!();
                 current_sink.seq(&self.state)?;
-                let descriptor = current_sink.descriptor();
-                self.state
-                    .descriptor_stack
-                    .push(unsafe { extend_lifetime!(descriptor, &dyn Descriptor) });
+                let descriptor = DescriptorSnapshot::of(current_sink.descriptor());
+                self.state.descriptor_stack.push(descriptor);
                 self.sink_stack
                     .push((self.current_sink.take().unwrap(), Layer::Seq));
                 return Ok(());
diff --git a/deser/src/de/mod.rs b/deser/src/de/mod.rs
index 935a3bc..eddd1bf 100644
--- a/deser/src/de/mod.rs
+++ b/deser/src/de/mod.rs
@@ -194,9 +194,10 @@
 use std::borrow::Cow;
 use std::cell::{Ref, RefMut};
 use std::fmt;
+use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 
-use crate::descriptors::{Descriptor, NullDescriptor};
+use crate::descriptors::{Descriptor, DescriptorSnapshot, NullDescriptor};
 use crate::error::{Error, ErrorKind};
 use crate::event::Atom;
 
@@ -279,7 +280,10 @@ impl<'a> SinkHandle<'a> {
 /// Gives access to the deserializer state.
 pub struct DeserializerState<'a> {
     extensions: Extensions,
-    descriptor_stack: Vec<&'a dyn Descriptor>,
+    // the containers can change while they are open, so their descriptors
+    // cannot be borrowed from them.
+    descriptor_stack: Vec<DescriptorSnapshot>,
+    _marker: PhantomData<&'a dyn Descriptor>,
 }
 
 impl<'a> DeserializerState<'a> {
@@ -302,7 +306,7 @@ impl<'a> DeserializerState<'a> {
     ///
     /// This descriptor always points to a container as the descriptor.
     pub fn top_descriptor(&self) -> Option<&dyn Descriptor> {
-        self.descriptor_stack.last().copied()
+        self.descriptor_stack.last().map(|x| x as &dyn Descriptor)
     }
 }
 
diff --git a/deser/src/descriptors.rs b/deser/src/descriptors.rs
index 58660f2..a88dd0f 100644
--- a/deser/src/descriptors.rs
+++ b/deser/src/descriptors.rs
@@ -17,6 +17,23 @@ pub(crate) struct UnorderedNamedDescriptor {
     pub(crate) name: &'static str,
 }
 
+/// A copy of a descriptor that is independent of where it came from.
+pub(crate) struct DescriptorSnapshot {
+    name: Option<Box<str>>,
+    precision: Option<usize>,
+    unordered: bool,
+}
+
+impl DescriptorSnapshot {
+    pub(crate) fn of(descriptor: &dyn Descriptor) -> DescriptorSnapshot {
+        DescriptorSnapshot {
+            name: descriptor.name().map(Into::into),
+            precision: descriptor.precision(),
+            unordered: descriptor.unordered(),
+        }
+    }
+}
+
 /// A descriptor provides auxiliary type information.
 ///
 /// Many types upon serialization coerce their value into a common atomic
@@ -54,6 +71,20 @@ pub trait Descriptor {
 
 impl Descriptor for NullDescriptor {}
 
+impl Descriptor for DescriptorSnapshot {
+    fn name(&self) -> Option<&str> {
+        self.name.as_deref()
+    }
+
+    fn precision(&self) -> Option<usize> {
+        self.precision
+    }
+
+    fn unordered(&self) -> bool {
+        self.unordered
+    }
+}
+
 impl Descriptor for NamedDescriptor {
     fn name(&self) -> Option<&str> {
         Some(self.name)
-- 
2.43.0


From de3002aacef599ce818b525039e6280b53c0bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 29/29] fix: rename_all = "camelCase" failed on variants that
 start with a non ASCII letter

---
 deser-derive/src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deser-derive/src/attr.rs b/deser-derive/src/attr.rs
index 7b4bcdc..e9f288f 100644
--- a/deser-derive/src/attr.rs
+++ b/deser-derive/src/attr.rs
@@ -238,7 +238,10 @@ impl<'a> ContainerAttrs<'a> {
                 RenameAll::PascalCase => name,
                 RenameAll::LowerCase => name.to_ascii_lowercase(),
                 RenameAll::UpperCase => name.to_ascii_uppercase(),
-                RenameAll::CamelCase => name[..1].to_ascii_lowercase() + &name[1..],
+                RenameAll::CamelCase => name
+                    .char_indices()
+                    .map(|(i, ch)| if i == 0 { ch.to_ascii_lowercase() } else { ch })
+                    .collect(),
                 RenameAll::SnakeCase
                 | RenameAll::ScreamingSnakeCase
                 | RenameAll::KebabCase
-- 
2.43.0

