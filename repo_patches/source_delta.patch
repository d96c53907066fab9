From 6c09eb98e7025efca534436b038f56a23282169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 01/23] fix: a failed `try` field leaves the reader where the
 field began

---
 binread_derive/src/codegen/read_options/struct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index e1988bd..3f6bda4 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -356,7 +356,16 @@ impl<'field> FieldGenerator<'field> {
         } else {
             let result = self.out;
             self.out = if self.field.do_try {
-                quote! { #result.ok() }
+                quote! {{
+                    let #SAVED_POSITION = #POS_TRAIT::stream_pos(#READER)?;
+                    match #result {
+                        Ok(value) => Some(value),
+                        Err(_) => {
+                            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Start(#SAVED_POSITION))?;
+                            None
+                        }
+                    }
+                }}
             } else {
                 let handle_error = debug_template::handle_error();
                 quote! { #result#handle_error? }
-- 
2.43.0


From 7733a435d9c7d62c1240793297a55460d90876a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 02/23] fix: no_std Cursor seeks from the end and rejects
 unrepresentable positions

---
 binread/src/io/cursor.rs | 43 +++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/binread/src/io/cursor.rs b/binread/src/io/cursor.rs
index c76fbc8..f6c8e8c 100644
--- a/binread/src/io/cursor.rs
+++ b/binread/src/io/cursor.rs
@@ -51,33 +51,30 @@ impl<T: AsRef<[u8]>> Read for Cursor<T> {
 
 impl<T: AsRef<[u8]>> Seek for Cursor<T> {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        match pos {
-            SeekFrom::Current(x) => {
-                if (self.pos as i64) + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    self.pos = ((self.pos as i64) + x) as u64;
-                    Ok(self.pos)
-                }
-            }
+        let (base, offset) = match pos {
             SeekFrom::Start(x) => {
                 self.pos = x;
-                Ok(self.pos)
+                return Ok(self.pos);
             }
-            SeekFrom::End(x) => {
-                let end = self.inner.as_ref().len() as i64;
-                if (self.pos as i64) + end + x < 0 {
-                    Err(Error::new(
-                        ErrorKind::InvalidInput,
-                        "invalid seek to a negative or overflowing position",
-                    ))
-                } else {
-                    Ok(self.pos)
-                }
+            SeekFrom::End(x) => (self.inner.as_ref().len() as u64, x),
+            SeekFrom::Current(x) => (self.pos, x),
+        };
+
+        let new_pos = if offset >= 0 {
+            base.checked_add(offset as u64)
+        } else {
+            base.checked_sub(offset.unsigned_abs())
+        };
+
+        match new_pos {
+            Some(new_pos) => {
+                self.pos = new_pos;
+                Ok(self.pos)
             }
+            None => Err(Error::new(
+                ErrorKind::InvalidInput,
+                "invalid seek to a negative or overflowing position",
+            )),
         }
     }
 }
-- 
2.43.0


From e65d93661439c91af6f7fa0b89b5601e97947f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 03/23] fix: Box forwards after_parse to its content

---
 binread/src/binread_impls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binread/src/binread_impls.rs b/binread/src/binread_impls.rs
index 2a4876f..530cfb3 100644
--- a/binread/src/binread_impls.rs
+++ b/binread/src/binread_impls.rs
@@ -289,6 +289,18 @@ impl<T: BinRead> BinRead for Box<T> {
     ) -> BinResult<Self> {
         Ok(Box::new(T::read_options(reader, options, args)?))
     }
+
+    fn after_parse<R>(
+        &mut self,
+        reader: &mut R,
+        ro: &ReadOptions,
+        args: Self::Args,
+    ) -> BinResult<()>
+    where
+        R: Read + Seek,
+    {
+        (**self).after_parse(reader, ro, args)
+    }
 }
 
 impl<T: BinRead> BinRead for Option<T> {
-- 
2.43.0


From bb13762eb435c51ddde9b056f882fee703c60785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 04/23] fix: a null-terminated string without its terminator is
 an end-of-file error

---
 binread/src/strings.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index e931961..068044f 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -20,11 +20,20 @@ impl BinRead for Vec<NonZeroU8> {
         _: &ReadOptions,
         _: Self::Args,
     ) -> BinResult<Self> {
-        reader
-            .bytes()
-            .take_while(|x| !matches!(x, Ok(0)))
-            .map(|x| Ok(x.map(|byte| unsafe { NonZeroU8::new_unchecked(byte) })?))
-            .collect()
+        let mut values = vec![];
+
+        for byte in reader.bytes() {
+            match NonZeroU8::new(byte?) {
+                Some(byte) => values.push(byte),
+                None => return Ok(values),
+            }
+        }
+
+        Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "missing null terminator",
+        )
+        .into())
     }
 }
 
-- 
2.43.0


From 0f6172b8e96badf6b1bd6605fb672bce2317558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 05/23] fix: do not panic when the position is unavailable
 while writing a debug template

---
 binread/src/file_ptr.rs | 2 +-
 binread/src/strings.rs  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a7e0aa5..a82a48a 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -84,7 +84,7 @@ impl<Ptr: BinRead<Args = ()> + IntoSeekFrom, BR: BinRead> BinRead for FilePtr<Pt
         let options = &{
             let mut options = *options;
 
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
             let type_name = &core::any::type_name::<Ptr>();
             if let Some(name) = options.variable_name {
                 binary_template::write_named(
diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index 068044f..fbb834e 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -164,7 +164,7 @@ impl BinRead for NullWideString {
         #[cfg(feature = "debug_template")]
         let options = {
             let mut options = *options;
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
@@ -197,7 +197,7 @@ impl BinRead for NullString {
     ) -> BinResult<Self> {
         #[cfg(feature = "debug_template")]
         {
-            let pos = reader.stream_pos().unwrap();
+            let pos = reader.stream_pos()?;
 
             if !options.dont_output_to_template {
                 binary_template::write_named(
-- 
2.43.0


From 3c102a64b812ad20f9119c6c2f816c55bd19a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 06/23] fix: unit-only enums honour a type-level magic, and
 repr enums their pre-assertions and imports

---
 binread_derive/src/codegen/read_options.rs      | 17 ++++++++++++++---
 binread_derive/src/codegen/read_options/enum.rs | 13 +++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index ca61e22..39ae8df 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -88,19 +88,30 @@ impl<'input> PreludeGenerator<'input> {
         self
     }
 
-    fn add_magic_pre_assertion(mut self) -> Self {
+    fn add_magic(mut self) -> Self {
         let magic = get_magic(self.input.magic(), &OPT);
-        let pre_assertions = get_assertions(&self.input.pre_assertions());
         let head = self.out;
 
         self.out = quote! {
             #head
             #magic
-            #(#pre_assertions)*
         };
 
         self
     }
+
+    fn add_magic_pre_assertion(self) -> Self {
+        let mut this = self.add_magic();
+        let pre_assertions = get_assertions(&this.input.pre_assertions());
+        let head = this.out;
+
+        this.out = quote! {
+            #head
+            #(#pre_assertions)*
+        };
+
+        this
+    }
 }
 
 fn get_assertions(assertions: &[Assert]) -> impl Iterator<Item = TokenStream> + '_ {
diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index a4e59d1..0db4aa0 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -23,14 +23,22 @@ fn generate_unit_enum_repr(
 ) -> TokenStream {
     let clauses = variants.iter().map(|variant| {
         let ident = &variant.ident;
+        let pre_assertions = variant
+            .pre_assertions
+            .iter()
+            .map(|assert| &assert.condition);
         quote! {
-            if #TEMP == Self::#ident as #repr {
+            if #TEMP == Self::#ident as #repr #(&& (#pre_assertions))* {
                 Ok(Self::#ident)
             }
         }
     });
 
-    let prelude = PreludeGenerator::new(input).add_options().finish();
+    let prelude = PreludeGenerator::new(input)
+        .add_imports()
+        .add_options()
+        .add_magic()
+        .finish();
 
     quote! {
         #prelude
@@ -51,6 +59,7 @@ fn generate_unit_enum_magic(
     let prelude = PreludeGenerator::new(input)
         .add_imports()
         .add_options()
+        .add_magic()
         .finish();
 
     let matches = variants.iter().filter_map(|field| {
-- 
2.43.0


From 0da531221a8c016ae8f2ebaf537372fa5e72e11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 07/23] fix: types read through `map`/`try_map` honour their
 byte order, magic and pre-assertions

---
 binread_derive/src/codegen/read_options.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 39ae8df..b7fc61c 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -20,16 +20,22 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             Input::UnitOnlyEnum(e) => generate_unit_enum(input, e),
         },
         Map::Try(map) => {
+            let prelude = get_map_prelude(input);
             let map_err = get_map_err(POS);
             quote! {
+                #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
                     #map(value)#map_err
                 })
             }
         }
-        Map::Map(map) => quote! {
-            #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
-        },
+        Map::Map(map) => {
+            let prelude = get_map_prelude(input);
+            quote! {
+                #prelude
+                #READ_METHOD(#READER, #OPT, #ARGS).map(#map)
+            }
+        }
     };
 
     quote! {
@@ -43,6 +49,15 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
     }
 }
 
+fn get_map_prelude(input: &Input) -> TokenStream {
+    let prelude = PreludeGenerator::new(input).add_imports().add_options();
+    match input {
+        Input::UnitOnlyEnum(_) => prelude.add_magic(),
+        _ => prelude.add_magic_pre_assertion(),
+    }
+    .finish()
+}
+
 struct PreludeGenerator<'input> {
     input: &'input Input,
     out: TokenStream,
-- 
2.43.0


From 94c89a7298c7546bf8ead271d470626aa528cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 08/23] fix: an I/O error returned by a try_map function stays
 an `Io` error

---
 binread/src/private.rs                     | 15 +++++++++++++++
 binread_derive/src/codegen/read_options.rs |  7 +------
 binread_derive/src/codegen/sanitization.rs |  1 +
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/binread/src/private.rs b/binread/src/private.rs
index 4126656..7b7a9b6 100644
--- a/binread/src/private.rs
+++ b/binread/src/private.rs
@@ -1,3 +1,5 @@
+use core::any::Any;
+
 use crate::{io, BinRead, BinResult, Error, ReadOptions};
 #[cfg(not(feature = "std"))]
 use alloc::{boxed::Box, string::String};
@@ -34,6 +36,19 @@ where
     }
 }
 
+/// Converts the error returned by a `try_map` function. I/O errors stay I/O
+/// errors, everything else becomes a custom error.
+pub fn map_error<Err>(pos: u64, err: Err) -> Error
+where
+    Err: Any + Sync + Send + 'static,
+{
+    let err: Box<dyn Any + Sync + Send> = Box::new(err);
+    match err.downcast::<io::Error>() {
+        Ok(err) => Error::Io(*err),
+        Err(err) => Error::Custom { pos, err },
+    }
+}
+
 // This validates the map function return value by trying to coerce it into
 // a function with the expected return type. If this is not done, the
 // compiler will emit the diagnostic on the `#[derive(BinRead)]` attribute
diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index b7fc61c..1c0992d 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -169,12 +169,7 @@ fn get_magic(magic: &Magic, options_var: &impl ToTokens) -> Option<TokenStream>
 
 fn get_map_err(pos: IdentStr) -> TokenStream {
     quote! {
-        .map_err(|e| {
-            #BIN_ERROR::Custom {
-                pos: #pos,
-                err: Box::new(e) as _,
-            }
-        })
+        .map_err(|e| #MAP_ERROR(#pos, e))
     }
 }
 
diff --git a/binread_derive/src/codegen/sanitization.rs b/binread_derive/src/codegen/sanitization.rs
index aea3b77..853d045 100644
--- a/binread_derive/src/codegen/sanitization.rs
+++ b/binread_derive/src/codegen/sanitization.rs
@@ -50,6 +50,7 @@ ident_str! {
     pub(super) ASSERT_MAGIC = from_crate!(error::magic);
     pub(super) ASSERT = from_crate!(__private::assert);
     pub(super) ASSERT_ERROR_FN = from_crate!(__private::AssertErrorFn);
+    pub(super) MAP_ERROR = from_crate!(__private::map_error);
     pub(super) COERCE_FN = from_crate!(__private::coerce_fn);
     pub(super) TRY_AFTER_PARSE = from_crate!(__private::try_after_parse);
     pub(super) TEMP = "__binread_temp";
-- 
2.43.0


From 5a86c32e12a576d5ea45b12a530293ed70d3e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 09/23] fix: items read by the repetition helpers keep the
 offset of their field

---
 binread/src/helpers.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 419414f..32135d0 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,10 +1,28 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinReaderExt, BinResult, ReadOptions,
+    BinRead, BinResult, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::{vec, vec::Vec};
 
+/// Reads one item of a sequence, with the byte order and offset of the sequence
+fn read_item<R, T>(reader: &mut R, ro: &ReadOptions, args: T::Args) -> BinResult<T>
+where
+    R: Read + Seek,
+    T: BinRead,
+{
+    let options = ReadOptions {
+        endian: ro.endian,
+        offset: ro.offset,
+        ..Default::default()
+    };
+
+    let mut item = T::read_options(reader, &options, args)?;
+    item.after_parse(reader, &options, args)?;
+
+    Ok(item)
+}
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -64,11 +82,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_item(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_item(reader, ro, args.clone())?;
         }
 
         result.push(last);
@@ -105,11 +123,11 @@ where
 {
     move |reader, ro, args| {
         let mut result = Vec::new();
-        let mut last = reader.read_type_args(ro.endian, args.clone())?;
+        let mut last = read_item(reader, ro, args.clone())?;
 
         while !cond(&last) {
             result.push(last);
-            last = reader.read_type_args(ro.endian, args.clone())?;
+            last = read_item(reader, ro, args.clone())?;
         }
 
         Ok(result.into_iter().collect())
@@ -140,13 +158,13 @@ where
     Ret: core::iter::FromIterator<T>,
 {
     let mut result = Vec::new();
-    let mut last = reader.read_type_args(ro.endian, args.clone());
+    let mut last = read_item(reader, ro, args.clone());
 
     while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-                reader.read_type_args(ro.endian, args.clone())
+                read_item(reader, ro, args.clone())
             }
             Err(err) => return Err(err),
         }
@@ -183,7 +201,7 @@ where
 {
     move |reader, ro, args| {
         (0..n)
-            .map(|_| reader.read_type_args(ro.endian, args.clone()))
+            .map(|_| read_item(reader, ro, args.clone()))
             .collect()
     }
 }
-- 
2.43.0


From f01ec3c41a430d13c19e826d60532a971aa8b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 10/23] fix: until_eof stops at the end of file when its items
 are enums

---
 binread/src/helpers.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index 32135d0..ad47b36 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -1,6 +1,6 @@
 use crate::{
     io::{ErrorKind::UnexpectedEof, Read, Seek},
-    BinRead, BinResult, ReadOptions,
+    BinRead, BinResult, Error, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
 use alloc::{vec, vec::Vec};
@@ -23,6 +23,18 @@ where
     Ok(item)
 }
 
+/// Whether an item could not be read because the end of the file was hit. An
+/// enum hits the end of the file if all of its variants do.
+fn is_eof(err: &Error) -> bool {
+    match err {
+        Error::Io(err) => err.kind() == UnexpectedEof,
+        Error::EnumErrors { variant_errors, .. } => {
+            variant_errors.iter().all(|(_, err)| is_eof(err))
+        }
+        _ => false,
+    }
+}
+
 /// A helper for more efficiently mass-reading bytes
 ///
 ///## Example:
@@ -160,7 +172,7 @@ where
     let mut result = Vec::new();
     let mut last = read_item(reader, ro, args.clone());
 
-    while !matches!(&last, Err(crate::Error::Io(err)) if err.kind() == UnexpectedEof) {
+    while !matches!(&last, Err(err) if is_eof(err)) {
         last = match last {
             Ok(x) => {
                 result.push(x);
-- 
2.43.0


From 0039a5f4ff6c508e48cfcbd076d03c4f98a1eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 11/23] fix: pad_size_to does not overflow when the field moved
 the reader backwards

---
 binread_derive/src/codegen/read_options/struct.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index 3f6bda4..f47330a 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -438,9 +438,10 @@ fn generate_seek_after(field: &StructField) -> TokenStream {
     let pad_size_to = field.pad_size_to.as_ref().map(|pad| {
         quote! {{
             let pad = (#pad) as i64;
-            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? - #POS) as i64;
+            let size = (#POS_TRAIT::stream_pos(#READER)#handle_error? as i64)
+                .saturating_sub(#POS as i64);
             if size < pad {
-                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad - size))#handle_error?;
+                #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad.saturating_sub(size)))#handle_error?;
             }
         }}
     });
-- 
2.43.0


From ae5a2f22b53b52b331222f4ca04fb2ac3ba1a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 12/23] fix: an alignment of zero read from the data does not
 panic

---
 binread_derive/src/codegen/read_options/struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index f47330a..d52d69c 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -497,7 +497,10 @@ fn map_align(align: &TokenStream) -> TokenStream {
     quote! {{
         let align = (#align) as i64;
         let pos = #POS_TRAIT::stream_pos(#READER)#handle_error? as i64;
-        #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current((align - (pos % align)) % align))#handle_error?;
+        if align != 0 {
+            let pad = align.wrapping_sub(pos.wrapping_rem(align)).wrapping_rem(align);
+            #SEEK_TRAIT::seek(#READER, #SEEK_FROM::Current(pad))#handle_error?;
+        }
     }}
 }
 
-- 
2.43.0


From ce8519c176a91f2e552ad03637fc49218a3633ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 13/23] fix: do not preallocate memory for a count that comes
 from the data

---
 binread/src/helpers.rs    | 12 +++++++++---
 binread/src/punctuated.rs |  8 ++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/binread/src/helpers.rs b/binread/src/helpers.rs
index ad47b36..b8b40e1 100644
--- a/binread/src/helpers.rs
+++ b/binread/src/helpers.rs
@@ -3,7 +3,7 @@ use crate::{
     BinRead, BinResult, Error, ReadOptions,
 };
 #[cfg(not(feature = "std"))]
-use alloc::{vec, vec::Vec};
+use alloc::vec::Vec;
 
 /// Reads one item of a sequence, with the byte order and offset of the sequence
 fn read_item<R, T>(reader: &mut R, ro: &ReadOptions, args: T::Args) -> BinResult<T>
@@ -60,8 +60,14 @@ pub fn read_bytes<R: Read + Seek>(
         Some(x) => x,
         None => panic!("Missing count for read_bytes"),
     };
-    let mut buf = vec![0; count];
-    reader.read_exact(&mut buf)?;
+    // The count may come from the data, so do not allocate more than a constant
+    // factor of what has actually been read
+    let mut buf = Vec::new();
+    while buf.len() < count {
+        let start = buf.len();
+        buf.resize(start + (count - start).min(start.max(4096)), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(buf)
 }
diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index bc27e50..d6e3d1e 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -66,8 +66,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count.max(1) - 1);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for i in 0..count {
             data.push(T::read_options(reader, &options, args)?);
@@ -92,8 +92,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
             None => panic!("Missing count for Punctuated"),
         };
 
-        let mut data = Vec::with_capacity(count);
-        let mut seperators = Vec::with_capacity(count);
+        let mut data = Vec::new();
+        let mut seperators = Vec::new();
 
         for _ in 0..count {
             data.push(T::read_options(reader, &options, args)?);
-- 
2.43.0


From 07d060f71f332d0bf6be417d835f417eea567799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 14/23] fix: NullString::to_string does not panic on invalid
 UTF-8

---
 binread/src/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread/src/strings.rs b/binread/src/strings.rs
index fbb834e..bda1296 100644
--- a/binread/src/strings.rs
+++ b/binread/src/strings.rs
@@ -250,7 +250,7 @@ impl core::ops::Deref for NullWideString {
 
 impl ToString for NullString {
     fn to_string(&self) -> String {
-        core::str::from_utf8(&self).unwrap().to_string()
+        String::from_utf8_lossy(self).into()
     }
 }
 
-- 
2.43.0


From 7ba70199225b1497c9133328f23acc46ab6d7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 15/23] fix: file pointers beyond the range of i64 do not wrap
 around

---
 binread/src/file_ptr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/binread/src/file_ptr.rs b/binread/src/file_ptr.rs
index a82a48a..92d341c 100644
--- a/binread/src/file_ptr.rs
+++ b/binread/src/file_ptr.rs
@@ -26,6 +26,7 @@
 //!
 //! Use `offset` to change what the pointer is relative to (default: beginning of reader).
 use super::*;
+use core::convert::TryFrom;
 use core::fmt;
 use core::ops::{Deref, DerefMut};
 
@@ -162,7 +163,10 @@ macro_rules! impl_into_seek_from {
         $(
             impl IntoSeekFrom for $t {
                 fn into_seek_from(self) -> SeekFrom {
-                    SeekFrom::Current(self as i64)
+                    // A pointer that does not fit must not wrap around to another place
+                    #[allow(unused_comparisons)]
+                    let limit = if self < 0 { i64::MIN } else { i64::MAX };
+                    SeekFrom::Current(i64::try_from(self).unwrap_or(limit))
                 }
             }
         )*
-- 
2.43.0


From 13a423ec364759e6dba31cca07d7d8c45e71fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 16/23] fix: elements of a Punctuated list are post-processed

---
 binread/src/punctuated.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binread/src/punctuated.rs b/binread/src/punctuated.rs
index d6e3d1e..78272dc 100644
--- a/binread/src/punctuated.rs
+++ b/binread/src/punctuated.rs
@@ -1,6 +1,7 @@
 //! A module for [`Punctuated<T, P>`](Punctuated), a series of items to parse of type T separated
 //! by punction of type `P`.
 
+use crate::error::read_options_then_after_parse;
 use crate::io::{Read, Seek};
 use crate::{BinRead, BinResult, ReadOptions};
 #[cfg(not(feature = "std"))]
@@ -70,9 +71,9 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for i in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
             if i + 1 != count {
-                seperators.push(P::read_options(reader, options, ())?);
+                seperators.push(read_options_then_after_parse(reader, options, ())?);
             }
         }
 
@@ -96,8 +97,8 @@ impl<C: Copy + 'static, T: BinRead<Args = C>, P: BinRead<Args = ()>> Punctuated<
         let mut seperators = Vec::new();
 
         for _ in 0..count {
-            data.push(T::read_options(reader, &options, args)?);
-            seperators.push(P::read_options(reader, options, ())?);
+            data.push(read_options_then_after_parse(reader, options, args)?);
+            seperators.push(read_options_then_after_parse(reader, options, ())?);
         }
 
         Ok(Self { data, seperators })
-- 
2.43.0


From 3e267d0a04c7207a5c485df7f1b1b1a28a6f9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 17/23] fix: the magic of a conditional field is only read when
 its condition holds

---
 .../src/codegen/read_options/struct.rs        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/struct.rs b/binread_derive/src/codegen/read_options/struct.rs
index d52d69c..c24c50d 100644
--- a/binread_derive/src/codegen/read_options/struct.rs
+++ b/binread_derive/src/codegen/read_options/struct.rs
@@ -3,7 +3,7 @@ use super::{debug_template, get_assertions, get_magic, PreludeGenerator, ReadOpt
 use crate::codegen::sanitization::*;
 use crate::parser::{Input, Map, PassedArgs, ReadMode, Struct, StructField};
 use proc_macro2::TokenStream;
-use quote::quote;
+use quote::{quote, ToTokens};
 use syn::Ident;
 
 pub(super) fn generate_unit_struct(input: &Input, variant_ident: Option<&Ident>) -> TokenStream {
@@ -315,6 +315,16 @@ impl<'field> FieldGenerator<'field> {
 
     fn prefix_magic(mut self, options_var: &Ident) -> Self {
         if let Some(magic) = get_magic(&self.field.magic, options_var) {
+            let magic = if let Some(cond) = &self.field.if_cond {
+                let condition_var = make_ident(&self.field.ident, "condition");
+                let condition = &cond.condition;
+                quote! {
+                    let #condition_var = #condition;
+                    if #condition_var { #magic }
+                }
+            } else {
+                magic
+            };
             let tail = self.out;
             self.out = quote! {
                 #magic
@@ -377,7 +387,12 @@ impl<'field> FieldGenerator<'field> {
 
     fn wrap_condition(mut self) -> Self {
         if let Some(cond) = &self.field.if_cond {
-            let condition = &cond.condition;
+            let condition = if self.field.magic.is_some() {
+                // Already evaluated, to decide whether there is a magic to read
+                make_ident(&self.field.ident, "condition").to_token_stream()
+            } else {
+                cond.condition.clone()
+            };
             let consequent = self.out;
             let alternate = &cond.alternate;
             self.out = quote! {
-- 
2.43.0


From b9e89f515d901822079652953ae7e9b503e7b668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 18/23] fix: a template writer that panics does not make later
 parses panic

---
 binread/src/binary_template.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 1c0d6f1..3a12fa3 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -4,7 +4,7 @@ use std::io::prelude::*;
 use std::path::Path;
 use std::sync::{
     atomic::{AtomicUsize, Ordering},
-    Mutex,
+    Mutex, MutexGuard, PoisonError,
 };
 
 use lazy_static::lazy_static;
@@ -52,6 +52,13 @@ const COLORS: &[&str] = &[
     "0x005F39", "0xFFE502", "0x0E4CA1", "0x9E008E", "0xFF0056", "0xD5FF00", "0x010067", "0x000000",
 ];
 
+type Output = Option<Box<dyn Write + Send>>;
+
+/// A writer that panics must not make every later parse panic
+fn lock_file() -> MutexGuard<'static, Output> {
+    FILE.lock().unwrap_or_else(PoisonError::into_inner)
+}
+
 pub fn set_output_file<P: AsRef<Path>>(path: P) -> std::io::Result<()> {
     set_output(std::fs::File::create(path.as_ref())?);
     Ok(())
@@ -59,15 +66,15 @@ pub fn set_output_file<P: AsRef<Path>>(path: P) -> std::io::Result<()> {
 
 pub fn set_output<W: Write + Send + 'static>(mut writer: W) {
     writeln!(writer, "{}", SETUP);
-    *FILE.lock().unwrap() = Some(Box::new(writer));
+    *lock_file() = Some(Box::new(writer));
 }
 
 pub fn unset_output() {
-    *FILE.lock().unwrap() = None;
+    *lock_file() = None;
 }
 
 pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
-    let mut lock = FILE.lock().unwrap();
+    let mut lock = lock_file();
     let file = match lock.as_mut() {
         Some(x) => x,
         None => return,
@@ -100,7 +107,7 @@ pub fn get_next_color() -> &'static str {
 }
 
 pub fn write_start_struct(name: &str) {
-    let mut lock = FILE.lock().unwrap();
+    let mut lock = lock_file();
     let file = match lock.as_mut() {
         Some(x) => x,
         None => return,
@@ -115,7 +122,7 @@ pub fn write_start_struct(name: &str) {
 }
 
 pub fn write_comment(comment: &str) {
-    let mut lock = FILE.lock().unwrap();
+    let mut lock = lock_file();
     let file = match lock.as_mut() {
         Some(x) => x,
         None => return,
@@ -125,7 +132,7 @@ pub fn write_comment(comment: &str) {
 }
 
 pub fn write_end_struct(name: Option<&str>) {
-    let mut lock = FILE.lock().unwrap();
+    let mut lock = lock_file();
     let file = match lock.as_mut() {
         Some(x) => x,
         None => return,
@@ -143,7 +150,7 @@ pub fn write(endian: Endian, pos: u64, type_name: &str) {
 }
 
 pub fn write_vec_named(endian: Endian, pos: u64, type_name: &str, count: usize, name: &str) {
-    let mut lock = FILE.lock().unwrap();
+    let mut lock = lock_file();
     let file = match lock.as_mut() {
         Some(x) => x,
         None => return,
-- 
2.43.0


From 953099e72d23bcb92d5a5ca5b1c4010e5912a9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 19/23] fix: debug templates name the byte order of values read
 in the host's order

---
 binread/src/binary_template.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 3a12fa3..55f6728 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -73,6 +73,20 @@ pub fn unset_output() {
     *lock_file() = None;
 }
 
+fn write_endian(file: &mut dyn Write, endian: Endian) {
+    let big = match endian {
+        Endian::Big => true,
+        Endian::Little => false,
+        Endian::Native => cfg!(target_endian = "big"),
+    };
+
+    if big {
+        writeln!(file, "BigEndian();");
+    } else {
+        writeln!(file, "LittleEndian();");
+    }
+}
+
 pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
     let mut lock = lock_file();
     let file = match lock.as_mut() {
@@ -80,11 +94,7 @@ pub fn write_named(endian: Endian, pos: u64, type_name: &str, var_name: &str) {
         None => return,
     };
 
-    match endian {
-        Endian::Big => writeln!(*file, "BigEndian();"),
-        Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
-    };
+    write_endian(file, endian);
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
 
@@ -156,11 +166,7 @@ pub fn write_vec_named(endian: Endian, pos: u64, type_name: &str, count: usize,
         None => return,
     };
 
-    match endian {
-        Endian::Big => writeln!(*file, "BigEndian();"),
-        Endian::Little => writeln!(*file, "LittleEndian();"),
-        _ => writeln!(*file),
-    };
+    write_endian(file, endian);
 
     let color_index = CURRENT_VAR_NUM.fetch_add(1, Ordering::SeqCst) & 0x3f;
 
-- 
2.43.0


From 770235f0b8bf233e73d5b820a20a81d9316dcf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:30 +0000
Subject: [PATCH 20/23] hook: binread_sim lets a simulator schedule the debug
 template's lock and counters

---
 binread/src/binary_template.rs |  16 +++-
 binread/src/sim_hooks.rs       | 147 +++++++++++++++++++++++++++++++++
 2 files changed, 159 insertions(+), 4 deletions(-)
 create mode 100644 binread/src/sim_hooks.rs

diff --git a/binread/src/binary_template.rs b/binread/src/binary_template.rs
index 55f6728..6ba71d3 100644
--- a/binread/src/binary_template.rs
+++ b/binread/src/binary_template.rs
@@ -1,11 +1,19 @@
 #![allow(unused_must_use)]
+#![allow(unknown_lints, unexpected_cfgs)]
 use super::Endian;
 use std::io::prelude::*;
 use std::path::Path;
-use std::sync::{
-    atomic::{AtomicUsize, Ordering},
-    Mutex, MutexGuard, PoisonError,
-};
+use std::sync::{atomic::Ordering, PoisonError};
+
+#[cfg(binread_sim)]
+#[doc(hidden)]
+#[path = "sim_hooks.rs"]
+pub mod sim_hooks;
+
+#[cfg(binread_sim)]
+use self::sim_hooks::{AtomicUsize, Mutex, MutexGuard};
+#[cfg(not(binread_sim))]
+use std::sync::{atomic::AtomicUsize, Mutex, MutexGuard};
 
 use lazy_static::lazy_static;
 
diff --git a/binread/src/sim_hooks.rs b/binread/src/sim_hooks.rs
new file mode 100644
index 0000000..92016ff
--- /dev/null
+++ b/binread/src/sim_hooks.rs
@@ -0,0 +1,147 @@
+//! Scheduling hooks for deterministic simulation. Only compiled with `--cfg binread_sim`.
+//!
+//! The lock and the counters of the debug template call [`yield_point`] around every
+//! operation, so that a simulator can decide how threads interleave. Without a simulator
+//! they behave like their `std` counterparts.
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::{AtomicPtr, AtomicUsize as StdAtomicUsize, Ordering};
+use std::sync::{
+    LockResult, Mutex as StdMutex, MutexGuard as StdGuard, PoisonError, TryLockError, TryLockResult,
+};
+
+type Hook = fn(&'static str);
+
+static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
+
+/// Sets the function called at every point where another thread may be scheduled.
+pub fn set_hook(hook: Hook) {
+    HOOK.store(hook as *mut (), Ordering::SeqCst);
+}
+
+pub fn yield_point(what: &'static str) {
+    let hook = HOOK.load(Ordering::SeqCst);
+    if !hook.is_null() {
+        // only ever set from a `Hook`
+        let hook: Hook = unsafe { std::mem::transmute(hook) };
+        hook(what);
+    } else if what == "blocked" {
+        std::thread::yield_now();
+    }
+}
+
+pub struct Mutex<T>(StdMutex<T>);
+
+pub struct MutexGuard<'a, T>(Option<StdGuard<'a, T>>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(StdMutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        yield_point("lock");
+        loop {
+            match self.0.try_lock() {
+                Ok(guard) => {
+                    yield_point("locked");
+                    return Ok(MutexGuard(Some(guard)));
+                }
+                Err(TryLockError::Poisoned(err)) => {
+                    return Err(PoisonError::new(MutexGuard(Some(err.into_inner()))))
+                }
+                Err(TryLockError::WouldBlock) => yield_point("blocked"),
+            }
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        yield_point("lock");
+        match self.0.try_lock() {
+            Ok(guard) => Ok(MutexGuard(Some(guard))),
+            Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(
+                MutexGuard(Some(err.into_inner())),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.0.clear_poison()
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.0.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.0.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        drop(self.0.take());
+        if !std::thread::panicking() {
+            yield_point("unlock");
+        }
+    }
+}
+
+pub struct AtomicUsize(StdAtomicUsize);
+
+impl AtomicUsize {
+    pub const fn new(value: usize) -> Self {
+        Self(StdAtomicUsize::new(value))
+    }
+
+    pub fn load(&self, order: Ordering) -> usize {
+        yield_point("counter");
+        self.0.load(order)
+    }
+
+    pub fn store(&self, value: usize, order: Ordering) {
+        yield_point("counter");
+        self.0.store(value, order)
+    }
+
+    pub fn swap(&self, value: usize, order: Ordering) -> usize {
+        yield_point("counter");
+        self.0.swap(value, order)
+    }
+
+    pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+        yield_point("counter");
+        self.0.fetch_add(value, order)
+    }
+
+    pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+        yield_point("counter");
+        self.0.fetch_sub(value, order)
+    }
+
+    pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
+        yield_point("counter");
+        self.0.fetch_max(value, order)
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        yield_point("counter");
+        self.0.compare_exchange(current, new, success, failure)
+    }
+}
-- 
2.43.0


From 4fc1149b02eed2a0ea01e5474589c4883fbea5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:48 +0000
Subject: [PATCH 21/23] fix: map and try_map on an enum variant are no longer
 ignored

---
 .../src/codegen/read_options/enum.rs          | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/binread_derive/src/codegen/read_options/enum.rs b/binread_derive/src/codegen/read_options/enum.rs
index 0db4aa0..e3150b2 100644
--- a/binread_derive/src/codegen/read_options/enum.rs
+++ b/binread_derive/src/codegen/read_options/enum.rs
@@ -1,11 +1,11 @@
 use super::{
-    get_assertions,
+    get_assertions, get_map_err, get_map_prelude,
     r#struct::{generate_unit_struct, StructGenerator},
     PreludeGenerator,
 };
 #[allow(clippy::wildcard_imports)]
 use crate::codegen::sanitization::*;
-use crate::parser::{Enum, EnumErrorMode, EnumVariant, Input, UnitEnumField, UnitOnlyEnum};
+use crate::parser::{Enum, EnumErrorMode, EnumVariant, Input, Map, UnitEnumField, UnitOnlyEnum};
 use proc_macro2::TokenStream;
 use quote::quote;
 
@@ -158,6 +158,10 @@ fn generate_variant_impl(en: &Enum, variant: &EnumVariant) -> TokenStream {
     let input = Input::Enum(en.with_variant(variant));
 
     match variant {
+        EnumVariant::Variant { options, .. } if options.map.is_some() => {
+            generate_mapped_variant(&input, &options.map)
+        }
+
         EnumVariant::Variant { ident, options } => StructGenerator::new(&input, &options)
             .read_fields()
             .add_assertions(get_assertions(&en.assertions))
@@ -167,3 +171,20 @@ fn generate_variant_impl(en: &Enum, variant: &EnumVariant) -> TokenStream {
         EnumVariant::Unit(options) => generate_unit_struct(&input, Some(&options.ident)),
     }
 }
+
+fn generate_mapped_variant(input: &Input, map: &Map) -> TokenStream {
+    let prelude = get_map_prelude(input);
+    let map_value = match map {
+        Map::None => TokenStream::new(),
+        Map::Map(map) => quote! { .map(#map) },
+        Map::Try(map) => {
+            let map_err = get_map_err(POS);
+            quote! { .and_then(|value| (#map)(value)#map_err) }
+        }
+    };
+
+    quote! {
+        #prelude
+        #READ_METHOD(#READER, #OPT, #ARGS)#map_value
+    }
+}
-- 
2.43.0


From 6572f1c45a6e314632549e7e5948eda9dc9cddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:11 +0000
Subject: [PATCH 22/23] fix: try_map on a type accepts a closure

---
 binread_derive/src/codegen/read_options.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binread_derive/src/codegen/read_options.rs b/binread_derive/src/codegen/read_options.rs
index 1c0992d..ec6e31d 100644
--- a/binread_derive/src/codegen/read_options.rs
+++ b/binread_derive/src/codegen/read_options.rs
@@ -25,7 +25,7 @@ pub(crate) fn generate(ident: &Ident, input: &Input) -> TokenStream {
             quote! {
                 #prelude
                 #READ_METHOD(#READER, #OPT, #ARGS).and_then(|value| {
-                    #map(value)#map_err
+                    (#map)(value)#map_err
                 })
             }
         }
-- 
2.43.0


From 892a8f7ffe0ebbc3630c5bcbc44ce1c120a1958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:31 +0000
Subject: [PATCH 23/23] fix: read and read_args resolve the file pointers of
 what they read

---
 binread/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binread/src/lib.rs b/binread/src/lib.rs
index 76a7695..f145ba9 100644
--- a/binread/src/lib.rs
+++ b/binread/src/lib.rs
@@ -196,12 +196,17 @@ pub trait BinRead: Sized {
             None => panic!("Must pass args, no args_default implemented"),
         };
 
-        Self::read_options(reader, &ReadOptions::default(), args)
+        Self::read_args(reader, args)
     }
 
     /// Read the type from the reader using the specified arguments
     fn read_args<R: Read + Seek>(reader: &mut R, args: Self::Args) -> BinResult<Self> {
-        Self::read_options(reader, &ReadOptions::default(), args)
+        let options = ReadOptions::default();
+
+        let mut res = Self::read_options(reader, &options, args)?;
+        res.after_parse(reader, &options, args)?;
+
+        Ok(res)
     }
 
     /// Read the type from the reader
-- 
2.43.0

