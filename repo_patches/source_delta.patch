From cea712c905a73123f137e9e7605514650f80f511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:56 +0000
Subject: [PATCH 01/14] fix: restore the reader position when a `try` field
 fails

The documentation promises that the position is restored when a `try`
field cannot be parsed, but a field made of several parts (an array, tuple,
`Vec` or custom parser) which failed part of the way through left the
reader wherever the failing part was.
---
 binread_derive/src/codegen/read_options/struct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..3f6bda4 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,16 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    match #result {
+                        Ok(value) => Some(value),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From a9387f933564e88cc3136fd746775e658382fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:57 +0000
Subject: [PATCH 02/14] fix: return Error::Io when a try_map function returns
 an I/O error

This is what the documentation of `try_map` says, but every error was
wrapped in Error::Custom.
---
 binread/src/private.rs                     | 21 +++++++++++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..89b9c29 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -1,6 +1,7 @@
 use crate::{io, BinRead, BinResult, Error, ReadOptions};
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, string::String};
+use core::any::{Any, TypeId};
 
 pub enum AssertErrorFn<M, E> {
     Message(M),
@@ -34,6 +35,26 @@ where
     }
 }
 
+/// Converts an error returned by a `try_map` function. I/O errors are passed
+/// through as [`Error::Io`], everything else becomes an [`Error::Custom`].
+pub fn map_error<E>(pos: u64, err: E) -> Error
+where
+    E: Any + Sync + Send,
+{
+    if TypeId::of::<E>() == TypeId::of::<io::Error>() {
+        let err: Box<dyn Any> = Box::new(err);
+        match err.downcast::<io::Error>() {
+            Ok(err) => Error::Io(*err),
+            Err(_) => unreachable!(),
+        }
+    } else {
+        Error::Custom {
+            pos,
+            err: Box::new(err),
+        }
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..09aa433 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -143,12 +143,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..853d045 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From cd154477165cb12e346ceed25d0f2f1789af01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:59 +0000
Subject: [PATCH 03/14] fix: make the no_std Cursor seek like std::io::Cursor

SeekFrom::End did not move the cursor (and validated the wrong sum), and
SeekFrom::Current overflowed for positions or offsets beyond i64::MAX.
---
 binread/src/io/cursor.rs | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..2c4b7f1 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,30 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::Current(x) => (self.pos, x),
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+        };
+
+        let new_pos = if offset >= 0 {
+            base.checked_add(offset as u64)
+        } else {
+            base.checked_sub(offset.wrapping_neg() as u64)
+        };
+
+        match new_pos {
+            Some(new_pos) => {
+                self.pos = new_pos;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From 1f146ca1e1cfa0da262b4d0989cf215fbed82043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:01 +0000
Subject: [PATCH 04/14] fix: postprocess the contents of a Box

Box<T> did not forward after_parse, so a boxed FilePtr was never read.
---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From bae07c30a37509dcff6d5e93c3843ea5ddcf0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:33 +0000
Subject: [PATCH 05/14] fix: do not underflow in pad_size_to when a field moves
 backwards

A field whose parser leaves the reader before the position it started from
made the size calculation underflow (a panic in debug builds).
---
 binread_derive/src/codegen/read_options/struct.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3f6bda4..02355d2 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -438,9 +438,9 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error?).wrapping_sub(#POS) as i64;
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad.saturating_sub(size)))#handle_error?;
             }
         }}
     });
-- 
2.43.0


From 2bc05b3c2272960e1b0ecde0dd9642a73e3989d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 06/14] fix: do not truncate file pointers which do not fit in
 an i64

A u64, u128 or i128 pointer beyond the range of i64 wrapped around, so that
the value was read from an unrelated position instead of failing.
---
 binread/src/file_ptr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..23121e7 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -26,6 +26,7 @@
 //!
 //! Use `offset` to change what the pointer is relative to (default: beginning of reader).
 use super::*;
+use core::convert::TryFrom;
 use core::fmt;
 use core::ops::{Deref, DerefMut};
 
@@ -162,7 +163,13 @@ macro_rules! impl_into_seek_from {
         $(
             impl IntoSeekFrom for $t {
                 fn into_seek_from(self) -> SeekFrom {
-                    SeekFrom::Current(self as i64)
+                    // Saturate pointers which do not fit, instead of wrapping
+                    // around to an unrelated position
+                    SeekFrom::Current(i64::try_from(self).unwrap_or(if self > 0 {
+                        i64::MAX
+                    } else {
+                        i64::MIN
+                    }))
                 }
             }
         )*
-- 
2.43.0


From 17d6e63c145908581ee8410793aed408b5b4e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:01 +0000
Subject: [PATCH 07/14] fix: do not allocate for a count before the data has
 been read

A corrupt count made Punctuated and read_bytes panic (capacity overflow) or
abort instead of returning an error.
---
 binread/src/helpers.rs    | 16 +++++++++++++---
 binread/src/punctuated.rs |  8 ++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..6bb56ce 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,11 @@ use crate::{
     BinRead, BinReaderExt, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
+
+/// The most bytes [`read_bytes`] allocates before it has seen that the data is
+/// there
+const READ_BYTES_CHUNK: usize = 0x10000;
 
 /// A helper for more efficiently mass-reading bytes
 ///
@@ -30,8 +34,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count usually comes from the data, so do not trust it enough to
+    // allocate everything upfront
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + (count - start).min(READ_BYTES_CHUNK), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From fa369671bab7d60976967f2ac50d7d9a8a395713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:32 +0000
Subject: [PATCH 08/14] fix: check `assert` directives on unit structs

They were accepted but silently ignored.
---
 binread_derive/src/codegen/read_options.rs        |  2 +-
 binread_derive/src/codegen/read_options/enum.rs   |  2 +-
 binread_derive/src/codegen/read_options/struct.rs | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 09aa433..3fed1aa 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -14,7 +14,7 @@ use syn::Ident;
 pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     let inner = match input.map() {
         Map::None => match input {
-            Input::UnitStruct(_) => generate_unit_struct(input, None),
+            Input::UnitStruct(s) => generate_unit_struct(input, None, &s.assertions),
             Input::Struct(s) => generate_struct(ident, input, s),
             Input::Enum(e) => generate_data_enum(e),
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..c20372a 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -155,6 +155,6 @@ fn generate_variant_impl(en: &Enum, variant: &EnumVariant) -> TokenStream {
             .return_value(Some(ident))
             .finish(),
 
-        EnumVariant::Unit(options) => generate_unit_struct(&input, Some(&options.ident)),
+        EnumVariant::Unit(options) => generate_unit_struct(&input, Some(&options.ident), &[]),
     }
 }
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 02355d2..89861d6 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -1,16 +1,22 @@
 use super::{debug_template, get_assertions, get_magic, PreludeGenerator, ReadOptionsGenerator};
 #[allow(clippy::wildcard_imports)]
 use crate::codegen::sanitization::*;
-use crate::parser::{Input, Map, PassedArgs, ReadMode, Struct, StructField};
+use crate::parser::{Assert, Input, Map, PassedArgs, ReadMode, Struct, StructField};
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::Ident;
 
-pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
+pub(super) fn generate_unit_struct(
+    input: &Input,
+    variant_ident: Option<&Ident>,
+    assertions: &[Assert],
+) -> TokenStream {
     let prelude = get_prelude(input);
+    let assertions = get_assertions(assertions);
     let return_type = get_return_type(variant_ident);
     quote! {
         #prelude
+        #(#assertions)*
         Ok(#return_type)
     }
 }
-- 
2.43.0


From 9d0860b10b47749639809fa5516fa42d1cfb0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 09/14] fix: check `pre_assert` on the variants of enums with a
 `repr`

They were accepted but silently ignored (they work for magic enums), and
imports could not be referenced.
---
 binread_derive/src/codegen/read_options/enum.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index c20372a..78405a8 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,21 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .finish();
 
     quote! {
         #prelude
-- 
2.43.0


From 276e35284e0fa6f0fb352b889a3147d09e4bb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:08 +0000
Subject: [PATCH 10/14] fix: match the magic of unit-like enums

A magic directive on a unit-like enum was accepted but silently ignored.
---
 binread_derive/src/codegen/read_options.rs      | 2 +-
 binread_derive/src/codegen/read_options/enum.rs | 2 ++
 binread_derive/src/parser/top_level_attrs.rs    | 5 +++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 3fed1aa..c30f37f 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -90,7 +90,7 @@ impl<'input> PreludeGenerator<'input> {
 
     fn add_magic_pre_assertion(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
-        let pre_assertions = get_assertions(&self.input.pre_assertions());
+        let pre_assertions = get_assertions(self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index 78405a8..844eb6f 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -37,6 +37,7 @@ fn generate_unit_enum_repr(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic_pre_assertion()
         .finish();
 
     quote! {
@@ -58,6 +59,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic_pre_assertion()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
diff --git a/binread_derive/src/parser/top_level_attrs.rs b/binread_derive/src/parser/top_level_attrs.rs
index ec7f8a3..39392c9 100644
--- a/binread_derive/src/parser/top_level_attrs.rs
+++ b/binread_derive/src/parser/top_level_attrs.rs
@@ -91,11 +91,12 @@ impl Input {
         }
     }
 
-    pub(crate) fn pre_assertions(&self) -> &Vec<Assert> {
+    pub(crate) fn pre_assertions(&self) -> &[Assert] {
         match self {
             Input::Struct(s) | Input::UnitStruct(s) => &s.pre_assertions,
             Input::Enum(e) => &e.pre_assertions,
-            Input::UnitOnlyEnum(_) => unimplemented!("`Input::pre_assert()` called on unit enum"),
+            // Not a supported directive
+            Input::UnitOnlyEnum(_) => &[],
         }
     }
 }
-- 
2.43.0


From e42b71bb1cd39d25655b66d3598f0ab6116996f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 11/14] fix: apply the top-level directives of mapped types

---
 binread_derive/src/codegen/read_options.rs        | 14 ++++++++++----
 binread_derive/src/codegen/read_options/struct.rs |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index c30f37f..9ea4104 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -8,7 +8,7 @@ use crate::parser::{Assert, AssertionError, CondEndian, Endian, Input, Magic, Ma
 use proc_macro2::TokenStream;
 use quote::{quote, ToTokens};
 use r#enum::{generate_data_enum, generate_unit_enum};
-use r#struct::{generate_struct, generate_unit_struct};
+use r#struct::{generate_struct, generate_unit_struct, get_prelude};
 use syn::Ident;
 
 pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
@@ -21,15 +21,21 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
         },
         Map::Try(map) => {
             let map_err = get_map_err(POS);
+            let prelude = get_prelude(input);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 89861d6..eb60714 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -431,7 +431,7 @@ fn get_passed_args(args: &PassedArgs) -> TokenStream {
     }
 }
 
-fn get_prelude(input: &Input) -> TokenStream {
+pub(super) fn get_prelude(input: &Input) -> TokenStream {
     PreludeGenerator::new(input)
         .add_imports()
         .add_options()
-- 
2.43.0


From 9491a044d695a71d0fa63c1accbba8083a6a76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 12/14] fix: return reader errors with debug_template instead
 of panicking

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index 23121e7..794598e 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -85,7 +85,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..6ed9303 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -155,7 +155,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -188,7 +188,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From cad050f3ceca845119db55189359350226ef0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 13/14] fix: NullString::to_string must not panic on invalid
 UTF-8

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 6ed9303..e119a25 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -241,7 +241,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into_owned()
     }
 }
 
-- 
2.43.0


From 578a568f3135a4276b388c6467b94429a28999a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 14/14] fix: pad_size_to must not stop short when the exact
 target is out of range

---
 binread_derive/src/codegen/read_options/struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index eb60714..0a4aa2c 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -446,7 +446,7 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
             let pad = (#pad) as i64;
             let size = (#POS_TRAIT::stream_pos(#READER)#handle_error?).wrapping_sub(#POS) as i64;
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad.saturating_sub(size)))#handle_error?;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#POS.wrapping_add(pad as u64)))#handle_error?;
             }
         }}
     });
-- 
2.43.0

