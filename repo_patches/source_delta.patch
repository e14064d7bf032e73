From 158b9a544c4e1c99d8f35b8615ff734fbe9636ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 01/44] fix: size collections by the byte length of their
 content

---
 crates/mabo/src/buf/size.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/mabo/src/buf/size.rs b/crates/mabo/src/buf/size.rs
index c697632..8f660cc 100644
--- a/crates/mabo/src/buf/size.rs
+++ b/crates/mabo/src/buf/size.rs
@@ -68,12 +68,18 @@ pub const fn size_bytes_bytes(value: &Bytes) -> usize {
     size_u64(value.len() as u64) + value.len()
 }
 
+/// Calculate the size of content that is prefixed with its own byte length.
+#[inline]
+const fn size_prefixed(len: usize) -> usize {
+    size_u64(len as u64) + len
+}
+
 /// Calculate the size of a Mabo `vec<T>` vector value.
 pub fn size_vec<T, S>(vec: &[T], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(vec.len() as u64) + vec.iter().map(size).sum::<usize>()
+    size_prefixed(vec.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `hash_map<K, V>` hash map value.
@@ -82,11 +88,11 @@ where
     SK: Fn(&K) -> usize,
     SV: Fn(&V) -> usize,
 {
-    size_u64(map.len() as u64)
-        + map
-            .iter()
+    size_prefixed(
+        map.iter()
             .map(|(key, value)| size_key(key) + size_value(value))
-            .sum::<usize>()
+            .sum(),
+    )
 }
 
 /// Calculate the size of a Mabo `hash_set<T>` hash set value.
@@ -94,7 +100,7 @@ pub fn size_hash_set<T, S>(set: &HashSet<T>, size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(set.len() as u64) + set.iter().map(size).sum::<usize>()
+    size_prefixed(set.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo `option<T>` option value.
@@ -110,7 +116,7 @@ pub fn size_array<const N: usize, T, S>(array: &[T; N], size: S) -> usize
 where
     S: Fn(&T) -> usize,
 {
-    size_u64(N as u64) + array.iter().map(size).sum::<usize>()
+    size_prefixed(array.iter().map(size).sum())
 }
 
 /// Calculate the size of a Mabo field identifier.
-- 
2.43.0


From 8b4169f9dec71c56d42365b9d9068f85e70f4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 02/44] fix: report arrays with too few elements instead of
 panicking

---
 crates/mabo/src/buf/decode.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index ee6f945..06abf5b 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -261,7 +261,6 @@ where
 ///
 /// Will return `Err` if the buffer does not have enough remaining data to read the value, or the
 /// `T` type fails to decode.
-#[expect(clippy::missing_panics_doc)]
 pub fn decode_array<const N: usize, R, T, D>(r: &mut R, decode: D) -> Result<[T; N]>
 where
     R: Buf,
@@ -281,9 +280,8 @@ where
     // skip any remaining values, in case the old array definition was larger.
     r.advance(r.remaining());
 
-    // SAFETY: we can unwrap here, because we ensured the Vec exactly matches
-    // with the length of the array.
-    Ok(vec.try_into().unwrap())
+    // The data might contain fewer values than the array requires.
+    vec.try_into().map_err(|_| Error::InsufficientData)
 }
 
 macro_rules! ensure_not_empty {
-- 
2.43.0


From 40f09c25234786fa20016c3c28da449cc0907a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 03/44] fix: decode varint integers that span multiple buffer
 chunks

---
 crates/mabo/src/buf/decode.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index 06abf5b..a562007 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -93,8 +93,29 @@ macro_rules! decode_int {
             /// Will return `Err` if the buffer does not have enough remaining data to read the
             /// value, or the _Varint_ decoding fails due to a missing end marker.
             pub fn [<decode_ $ty>](r: &mut impl Buf) -> Result<$ty> {
-                let (value, consumed) = varint::[<decode_ $ty>](r.chunk())?;
-                r.advance(consumed);
+                const MAX_SIZE: usize = varint::[<size_ $ty>](<$ty>::MAX);
+
+                let chunk = r.chunk();
+                if chunk.len() >= MAX_SIZE || chunk.len() == r.remaining() {
+                    let (value, consumed) = varint::[<decode_ $ty>](chunk)?;
+                    r.advance(consumed);
+                    return Ok(value);
+                }
+
+                // The integer might be spread over multiple chunks of the buffer.
+                let mut buf = [0; MAX_SIZE];
+                let mut len = 0;
+
+                while len < MAX_SIZE && r.has_remaining() {
+                    buf[len] = r.get_u8();
+                    len += 1;
+
+                    if buf[len - 1] & 0x80 == 0 {
+                        break;
+                    }
+                }
+
+                let (value, _) = varint::[<decode_ $ty>](&buf[..len])?;
                 Ok(value)
             }
         }
-- 
2.43.0


From 36a4943b8be8a9fd1d5be152ffce2e35e7883e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 04/44] fix: encode box<bytes> fields independent of the bytes
 type option

---
 crates/mabo-build/src/encode.rs | 6 +++++-
 crates/mabo-build/src/size.rs   | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 5481f6a..02f4edb 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -216,7 +216,11 @@ fn compile_data_type(
             quote! { ::mabo::FieldEncoding::LengthPrefixed },
             quote! { ::mabo::buf::encode_string(w, #name) },
         ),
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => (
+            quote! { ::mabo::FieldEncoding::LengthPrefixed },
+            quote! { ::mabo::buf::encode_bytes_std(w, #name) },
+        ),
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => (
                 quote! { ::mabo::FieldEncoding::LengthPrefixed },
                 quote! { ::mabo::buf::encode_bytes_std(w, #name) },
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 6543d6c..a0671ba 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -200,7 +200,8 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::String | Type::StringRef | Type::BoxString => {
             quote! { ::mabo::buf::size_string(#name) }
         }
-        Type::Bytes | Type::BytesRef | Type::BoxBytes => match opts.bytes_type {
+        Type::BoxBytes => quote! { ::mabo::buf::size_bytes_std(#name) },
+        Type::Bytes | Type::BytesRef => match opts.bytes_type {
             BytesType::VecU8 => quote! { ::mabo::buf::size_bytes_std(#name) },
             BytesType::Bytes => quote! { ::mabo::buf::size_bytes_bytes(#name) },
         },
-- 
2.43.0


From 8b28a6869364a0c107603e50d9e1d603871f315f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 05/44] fix: take references of tuple elements before calling
 methods on them

---
 crates/mabo-build/src/encode.rs | 16 ++++++++++++----
 crates/mabo-build/src/size.rs   | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 02f4edb..888e65f 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -324,15 +324,23 @@ fn compile_data_type(
         Type::Tuple(types) => match types.len() {
             2..=12 => {
                 let encode = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx }, false).1
+                    compile_data_type(
+                        opts,
+                        ty,
+                        super::size::compile_tuple_element(ty, &name, idx),
+                        false,
+                    )
+                    .1
                 });
                 (
                     quote! { ::mabo::FieldEncoding::LengthPrefixed },
                     if root {
                         let size = types.iter().enumerate().map(|(idx, ty)| {
-                            let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                            super::size::compile_data_type(opts, ty, quote! { &#name.#idx })
+                            super::size::compile_data_type(
+                                opts,
+                                ty,
+                                super::size::compile_tuple_element(ty, &name, idx),
+                            )
                         });
 
                         quote! { ::mabo::buf::encode_tuple(w, || { #(#size)+* }, |w| { #(#encode;)* }) }
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index a0671ba..bc8be15 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -245,8 +245,7 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         Type::Tuple(types) => match types.len() {
             2..=12 => {
                 let types = types.iter().enumerate().map(|(idx, ty)| {
-                    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
-                    compile_data_type(opts, ty, quote! { &#name.#idx })
+                    compile_data_type(opts, ty, compile_tuple_element(ty, &name, idx))
                 });
                 quote! { #(#types)+* }
             }
@@ -261,3 +260,15 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
         }
     }
 }
+
+/// Access a single tuple element by reference. Types that call a method on the element need it to be
+/// wrapped in parentheses, as the reference would otherwise be taken from the result of the call.
+pub(crate) fn compile_tuple_element(ty: &Type<'_>, name: &TokenStream, idx: usize) -> TokenStream {
+    let idx = proc_macro2::Literal::usize_unsuffixed(idx);
+
+    if matches!(ty, Type::Option(_) | Type::NonZero(_)) {
+        quote! { (&#name.#idx) }
+    } else {
+        quote! { &#name.#idx }
+    }
+}
-- 
2.43.0


From 3f294c1623371bf2c84e892c04486f01d720966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 06/44] fix: visit the content of non-zero types during
 validation and resolution

---
 crates/mabo-compiler/src/resolve/mod.rs       | 2 +-
 crates/mabo-compiler/src/validate/generics.rs | 2 +-
 crates/mabo-compiler/src/validate/tuples.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 4ab3f2a..bb16881 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -473,12 +473,12 @@ fn visit_externals<'a>(value: &'a Type<'_>, visit: &mut impl FnMut(&'a ExternalT
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => {
             visit_externals(ty, visit);
         }
diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 44efd35..40dbc4b 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -162,12 +162,12 @@ fn visit_externals(value: &Type<'_>, visit: &mut impl FnMut(&ExternalType<'_>))
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => {}
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_externals(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_externals(key, visit);
diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 439b4bc..7f590dc 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -108,12 +108,12 @@ fn visit_tuples<E>(
         | DataType::StringRef
         | DataType::Bytes
         | DataType::BytesRef
-        | DataType::NonZero { .. }
         | DataType::BoxString
         | DataType::BoxBytes => Ok(()),
         DataType::Vec { ty, .. }
         | DataType::HashSet { ty, .. }
         | DataType::Option { ty, .. }
+        | DataType::NonZero { ty, .. }
         | DataType::Array { ty, .. } => visit_tuples(ty, visit),
         DataType::HashMap { key, value, .. } => {
             visit_tuples(key, visit)?;
-- 
2.43.0


From 53c9742de7b30caef4f5865908811e63385ea074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 07/44] fix: resolve types that are referenced through an
 imported module

---
 crates/mabo-compiler/src/resolve/mod.rs | 67 +++++++++++--------------
 1 file changed, 28 insertions(+), 39 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index bb16881..74661dd 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -230,21 +230,14 @@ impl Module<'_> {
     }
 
     fn resolve_remote(&self, ty: &ExternalType<'_>) -> Result<(), ResolveRemote> {
-        let module = if ty
-            .path
-            .first()
-            .is_some_and(|(first, _)| first.get() == self.name)
-        {
-            self
-        } else {
-            ty.path.iter().try_fold(self, |module, (name, _)| {
-                module.modules.get(name.get()).ok_or_else(|| MissingModule {
-                    name: name.get().to_owned(),
-                    path: module.path_to_string(),
-                    used: ty.name.span().into(),
-                })
-            })?
-        };
+        // The first part of the path is the imported module itself.
+        let module = ty.path.iter().skip(1).try_fold(self, |module, (name, _)| {
+            module.modules.get(name.get()).ok_or_else(|| MissingModule {
+                name: name.get().to_owned(),
+                path: module.path_to_string(),
+                used: ty.name.span().into(),
+            })
+        })?;
 
         let definition = module
             .types
@@ -530,7 +523,7 @@ pub(crate) fn resolve_type_remotely(
     imports: &[ResolvedImport<'_>],
 ) -> Result<(), ResolveError> {
     if imports.is_empty() {
-        return Err(ty.error.into());
+        Err(ty.error.into())
     } else if let Some((name, _)) = ty.external.path.first() {
         let module = imports.iter().find_map(|import| match import {
             ResolvedImport::Module(module) => (module.name == name.get()).then_some(module),
@@ -538,25 +531,23 @@ pub(crate) fn resolve_type_remotely(
         });
 
         match module {
-            Some(module) => module.resolve_remote(ty.external)?,
-            None => {
-                return Err(ResolveRemote::MissingImport(MissingImport {
-                    ty: format!(
-                        "{}{}",
-                        ty.external
-                            .path
-                            .iter()
-                            .fold(String::new(), |mut acc, (part, _)| {
-                                acc.push_str(part.get());
-                                acc.push_str(token::DoubleColon::VALUE);
-                                acc
-                            }),
-                        ty.external.name
-                    ),
-                    used: ty.external.name.span().into(),
-                })
-                .into());
-            }
+            Some(module) => Ok(module.resolve_remote(ty.external)?),
+            None => Err(ResolveRemote::MissingImport(MissingImport {
+                ty: format!(
+                    "{}{}",
+                    ty.external
+                        .path
+                        .iter()
+                        .fold(String::new(), |mut acc, (part, _)| {
+                            acc.push_str(part.get());
+                            acc.push_str(token::DoubleColon::VALUE);
+                            acc
+                        }),
+                    ty.external.name
+                ),
+                used: ty.external.name.span().into(),
+            })
+            .into()),
         }
     } else {
         let found = imports.iter().find_map(|import| match import {
@@ -591,12 +582,10 @@ pub(crate) fn resolve_type_remotely(
             .into());
         }
 
-        return Err(ResolveRemote::MissingImport(MissingImport {
+        Err(ResolveRemote::MissingImport(MissingImport {
             ty: ty.external.name.get().to_owned(),
             used: ty.external.name.span().into(),
         })
-        .into());
+        .into())
     }
-
-    Err(ty.error.into())
 }
-- 
2.43.0


From d2543514740a63bdc741a6eae36beb8749e5d91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 08/44] fix: don't overflow when deriving the identifier after
 the highest one

---
 crates/mabo-compiler/src/lib.rs | 2 +-
 crates/mabo-meta/src/lib.rs     | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-compiler/src/lib.rs b/crates/mabo-compiler/src/lib.rs
index 5bd1212..23bbde7 100644
--- a/crates/mabo-compiler/src/lib.rs
+++ b/crates/mabo-compiler/src/lib.rs
@@ -49,7 +49,7 @@ impl IdGenerator {
     /// the ID counter might jump forth and back, as long as each ID is guaranteed to be unique.
     fn next(&mut self, id: Option<&mabo_parser::Id>) -> u32 {
         let id = id.map_or(self.next_id, mabo_parser::Id::get);
-        self.next_id = id + 1;
+        self.next_id = id.saturating_add(1);
         id
     }
 
diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 5836b45..6f112a8 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -10,7 +10,12 @@ use mabo_compiler::simplify::{FieldKind, Fields, Type, Variant};
 /// Get the next free ID for an enum variant.
 #[must_use]
 pub fn next_variant_id(variants: &[Variant<'_>]) -> u32 {
-    variants.iter().map(|variant| variant.id).max().unwrap_or(0) + 1
+    variants
+        .iter()
+        .map(|variant| variant.id)
+        .max()
+        .unwrap_or(0)
+        .saturating_add(1)
 }
 
 /// Get the next free ID for a struct or enum variant field.
@@ -26,7 +31,7 @@ pub fn next_field_id(fields: &Fields<'_>) -> Option<u32> {
                 .map(|field| field.id)
                 .max()
                 .unwrap_or(0)
-                + 1,
+                .saturating_add(1),
         )
     }
 }
-- 
2.43.0


From e1fe1e0413fae44363bfccea34799e5f7d9b1d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 09/44] fix: consider the byte length of the content for wire
 sizes of arrays

---
 crates/mabo-meta/src/lib.rs | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/crates/mabo-meta/src/lib.rs b/crates/mabo-meta/src/lib.rs
index 6f112a8..e41a9de 100644
--- a/crates/mabo-meta/src/lib.rs
+++ b/crates/mabo-meta/src/lib.rs
@@ -150,7 +150,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "option".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -159,7 +162,10 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
             WireSize {
                 label: "non_zero".into(),
                 min: 0,
-                max: inner.as_ref().and_then(|size| size.max).map(|max| 1 + max),
+                max: inner
+                    .as_ref()
+                    .and_then(|size| size.max)
+                    .map(|max| max.saturating_add(1)),
                 inner: vec![("value".into(), inner)],
             }
         }
@@ -172,20 +178,33 @@ pub fn wire_size(ty: &Type<'_>) -> Option<WireSize> {
 }
 
 fn wire_size_array(ty: &Type<'_>, size: u32) -> WireSize {
-    let length = varint_size(size);
+    let size = size as usize;
     let inner = wire_size(ty);
 
+    // The length prefix holds the byte length of the content, not the amount of elements.
+    let min = inner
+        .as_ref()
+        .map_or(0, |inner| inner.min.saturating_mul(size));
+    let max = inner
+        .as_ref()
+        .and_then(|inner| inner.max)
+        .map(|max| max.saturating_mul(size));
+
+    let length = WireSize {
+        label: "u64".into(),
+        min: varint_size(min),
+        max: max.map(varint_size),
+        inner: Vec::new(),
+    };
+
     WireSize {
         label: "array".into(),
-        min: length + inner.as_ref().map_or(0, |size| size.min) * size as usize,
-        max: inner
-            .as_ref()
-            .and_then(|size| size.max)
-            .map(|max| length + max * size as usize),
-        inner: vec![
-            ("length".into(), Some(WireSize::fixed("u64", length))),
-            ("element".into(), inner),
-        ],
+        min: length.min.saturating_add(min),
+        max: length
+            .max
+            .zip(max)
+            .map(|(length, max)| length.saturating_add(max)),
+        inner: vec![("length".into(), Some(length)), ("element".into(), inner)],
     }
 }
 
@@ -202,15 +221,15 @@ fn wire_size_tuple(types: &[Type<'_>]) -> WireSize {
             .iter()
             .filter_map(|(_, size)| size.as_ref())
             .map(|size| size.min)
-            .sum(),
+            .fold(0, usize::saturating_add),
         max: inner
             .iter()
             .map(|(_, size)| size.as_ref().and_then(|s| s.max))
-            .sum(),
+            .try_fold(0, |sum: usize, max| max.map(|max| sum.saturating_add(max))),
         inner,
     }
 }
 
-fn varint_size(value: u32) -> usize {
-    ((std::mem::size_of::<u32>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
+fn varint_size(value: usize) -> usize {
+    ((std::mem::size_of::<usize>() * 8 - value.leading_zeros() as usize).div_ceil(7)).max(1)
 }
-- 
2.43.0


From 5129095d19e9fee0c30a7a77011794fdb4a5a7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 10/44] fix: don't loop forever when decoding collections of
 elements without data

---
 crates/mabo/src/buf/decode.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/mabo/src/buf/decode.rs b/crates/mabo/src/buf/decode.rs
index a562007..0cadd52 100644
--- a/crates/mabo/src/buf/decode.rs
+++ b/crates/mabo/src/buf/decode.rs
@@ -37,6 +37,9 @@ pub enum Error {
     /// An unknown field encoding was found.
     #[error("encountered an unknown field encoding")]
     UnknownEncoding(u32),
+    /// The element of a collection didn't consume any data, although the collection has content.
+    #[error("collection has content but its element type doesn't have any data")]
+    EmptyElement,
     /// The value of a non-zero field was actually zero.
     #[error("non-zero value was found to be zero")]
     Zero,
@@ -53,6 +56,22 @@ macro_rules! ensure_size {
     };
 }
 
+/// Decode a single element of a collection and ensure it consumed some data. Otherwise the decoding
+/// of elements without any data would never come to an end.
+fn decode_element<R, T>(r: &mut R, decode: impl FnOnce(&mut R) -> Result<T>) -> Result<T>
+where
+    R: Buf,
+{
+    let remaining = r.remaining();
+    let value = decode(r)?;
+
+    if r.remaining() == remaining {
+        return Err(Error::EmptyElement);
+    }
+
+    Ok(value)
+}
+
 /// Decode a Mabo `bool` (`true` or `false`) value.
 ///
 /// # Errors
@@ -200,7 +219,7 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        vec.push(decode(&mut r)?);
+        vec.push(decode_element(&mut r, &decode)?);
     }
 
     Ok(vec)
@@ -230,7 +249,8 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        let (key, value) = decode_element(&mut r, |r| Ok((decode_key(r)?, decode_value(r)?)))?;
+        map.insert(key, value);
     }
 
     Ok(map)
@@ -255,7 +275,7 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        set.insert(decode(&mut r)?);
+        set.insert(decode_element(&mut r, &decode)?);
     }
 
     Ok(set)
@@ -402,7 +422,7 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        vec.push(decode(&mut r)?);
+        vec.push(decode_element(&mut r, &decode)?);
     }
 
     Ok(NonZero::<Vec<_>>::new(vec).unwrap())
@@ -434,7 +454,8 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        map.insert(decode_key(&mut r)?, decode_value(&mut r)?);
+        let (key, value) = decode_element(&mut r, |r| Ok((decode_key(r)?, decode_value(r)?)))?;
+        map.insert(key, value);
     }
 
     Ok(NonZero::<HashMap<_, _>>::new(map).unwrap())
@@ -461,7 +482,7 @@ where
     let mut r = r.take(len as usize);
 
     while r.has_remaining() {
-        set.insert(decode(&mut r)?);
+        set.insert(decode_element(&mut r, &decode)?);
     }
 
     Ok(NonZero::<HashSet<_>>::new(set).unwrap())
-- 
2.43.0


From 05d9b911b230a37f8ff4f6399577cb93b8f2a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 11/44] fix: parenthesise nested tuples and external types of
 tuple elements

---
 crates/mabo-build/src/size.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index bc8be15..769a299 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -261,12 +261,16 @@ pub(crate) fn compile_data_type(opts: &Opts, ty: &Type<'_>, name: TokenStream) -
     }
 }
 
-/// Access a single tuple element by reference. Types that call a method on the element need it to be
-/// wrapped in parentheses, as the reference would otherwise be taken from the result of the call.
+/// Access a single tuple element by reference. Types that call a method on the element or access its
+/// fields need it to be wrapped in parentheses, as the reference would otherwise be taken from the
+/// result of that.
 pub(crate) fn compile_tuple_element(ty: &Type<'_>, name: &TokenStream, idx: usize) -> TokenStream {
     let idx = proc_macro2::Literal::usize_unsuffixed(idx);
 
-    if matches!(ty, Type::Option(_) | Type::NonZero(_)) {
+    if matches!(
+        ty,
+        Type::Option(_) | Type::NonZero(_) | Type::Tuple(_) | Type::External(_)
+    ) {
         quote! { (&#name.#idx) }
     } else {
         quote! { &#name.#idx }
-- 
2.43.0


From 4b861612af1886286c8ee4e1aebf9d96490aaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 12/44] fix: exclude leading whitespace from the location of
 unnamed fields

---
 crates/mabo-parser/src/parser/fields.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 358ac26..2d47f0d 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -113,17 +113,17 @@ fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
 }
 
 fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Cause> {
-    (
-        ws(types::parse.map_err2(Cause::from)),
+    ws((
+        types::parse.map_err2(Cause::from),
         opt(preceded(space0, ids::parse.map_err2(Cause::from))),
     )
-        .with_span()
-        .parse_next(input)
-        .map(|((ty, id), span)| UnnamedField {
-            ty,
-            id,
-            span: span.into(),
-        })
+        .with_span())
+    .parse_next(input)
+    .map(|((ty, id), span)| UnnamedField {
+        ty,
+        id,
+        span: span.into(),
+    })
 }
 
 fn parse_named_field<'i>(input: &mut Input<'i>) -> Result<NamedField<'i>, Cause> {
-- 
2.43.0


From 3eaa01d48a846485cd60b61304804cb30cf99ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 13/44] fix: exclude surrounding whitespace from the location
 of fields and variants

The indentation of commented fields and variants, as well as blanks after unit variants, were part
of the recorded location. Unit structs at the end of the file are accepted as well now.
---
 crates/mabo-parser/src/parser/enums.rs   | 15 +++++++-----
 crates/mabo-parser/src/parser/fields.rs  | 31 +++++++++++++++---------
 crates/mabo-parser/src/parser/structs.rs |  6 ++---
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index c6d17a6..a948a7d 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -137,12 +137,15 @@ fn parse_variants<'i>(
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_variant_name.with_span()),
-            preceded(space0, fields::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_variant_name.with_span(),
+                fields::parse.map_err2(Cause::from),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, fields, id), span))| Variant {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index 2d47f0d..b4662d7 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -71,13 +71,19 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError> {
+    let unit = input.checkpoint();
+    let _ = space0::<_, ErrMode<()>>.parse_next(input);
     let start = input.checkpoint();
 
     dispatch!(
-        peek(any);
-        '{' => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
-        '(' => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
-        _ => parse_unit.map(|()| Fields::Unit),
+        peek(opt(any));
+        Some('{') => parse_named.map(|(brace, fields)| Fields::Named(brace, fields)),
+        Some('(') => parse_unnamed.map(|(paren, fields)| Fields::Unnamed(paren, fields)),
+        _ => |input: &mut Input<'i>| {
+            // The whitespace is not part of the definition if no fields follow.
+            input.reset(&unit);
+            parse_unit(input).map(|()| Fields::Unit)
+        },
     )
     .parse_next(input)
     .map_err(|e| {
@@ -129,13 +135,16 @@ fn parse_unnamed_field<'i>(input: &mut Input<'i>) -> Result<UnnamedField<'i>, Ca
 fn parse_named_field<'i>(input: &mut Input<'i>) -> Result<NamedField<'i>, Cause> {
     (
         ws(comments::parse.map_err2(Cause::from)),
-        (
-            preceded(space0, parse_field_name),
-            preceded(space0, token::Colon::parser()),
-            preceded(space0, types::parse.map_err2(Cause::from)),
-            opt(preceded(space0, ids::parse.map_err2(Cause::from))),
-        )
-            .with_span(),
+        preceded(
+            space0,
+            (
+                parse_field_name,
+                preceded(space0, token::Colon::parser()),
+                preceded(space0, types::parse.map_err2(Cause::from)),
+                opt(preceded(space0, ids::parse.map_err2(Cause::from))),
+            )
+                .with_span(),
+        ),
     )
         .parse_next(input)
         .map(|(comment, ((name, colon, ty, id), span))| NamedField {
diff --git a/crates/mabo-parser/src/parser/structs.rs b/crates/mabo-parser/src/parser/structs.rs
index 97efa0e..34bf0b2 100644
--- a/crates/mabo-parser/src/parser/structs.rs
+++ b/crates/mabo-parser/src/parser/structs.rs
@@ -3,8 +3,8 @@ use std::ops::Range;
 use mabo_derive::{ParserError, ParserErrorCause};
 use winnow::{
     Parser,
-    ascii::{alphanumeric0, space0, space1},
-    combinator::{cut_err, opt, preceded, terminated},
+    ascii::{alphanumeric0, space1},
+    combinator::{cut_err, opt, terminated},
     error::ErrMode,
     stream::{Location, Stream},
     token::one_of,
@@ -70,7 +70,7 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Struct<'i>, ParseError>
         cut_err((
             parse_name,
             opt(generics::parse.map_err2(Cause::Generics)),
-            preceded(space0, fields::parse.map_err2(Cause::Fields)),
+            fields::parse.map_err2(Cause::Fields),
         )),
     )
         .parse_next(input)
-- 
2.43.0


From d5e11252cf955743f18dfb46754627863b80c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:29 +0000
Subject: [PATCH 14/44] fix: accept CRLF line endings after comments and
 attributes

---
 crates/mabo-parser/src/parser.rs            | 12 ++++++++++--
 crates/mabo-parser/src/parser/attributes.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index df19d26..c54703a 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use winnow::{
-    ascii::{multispace0, newline, space0},
+    ascii::{line_ending, multispace0, space0},
     combinator::{cut_err, fail, opt, peek, preceded, repeat, terminated, trace},
     dispatch,
     error::{ErrMode, ParserError},
@@ -56,7 +56,7 @@ pub(crate) fn parse_schema<'i>(input: &mut Input<'i>) -> Result<Schema<'i>, Pars
         (
             opt(terminated(
                 ws(comments::parse.map_err2(Into::into)),
-                newline,
+                line_ending,
             )),
             terminated(
                 repeat(0.., parse_definition.map_err2(Into::into)),
@@ -193,6 +193,14 @@ mod comments {
                 preceded(("///", space0), take_till(0.., '\n')).with_span(),
                 '\n',
             )
+            .map(|(value, span): (&str, Range<usize>)| {
+                // Part of the line ending, not of the comment.
+                value
+                    .strip_suffix('\r')
+                    .map_or((value, span.clone()), |value| {
+                        (value, span.start..span.end - 1)
+                    })
+            })
             .map(CommentLine::from),
         )
         .parse_next(input)
diff --git a/crates/mabo-parser/src/parser/attributes.rs b/crates/mabo-parser/src/parser/attributes.rs
index abc9dfa..5d12208 100644
--- a/crates/mabo-parser/src/parser/attributes.rs
+++ b/crates/mabo-parser/src/parser/attributes.rs
@@ -3,7 +3,7 @@ use std::ops::Range;
 use mabo_derive::{ParserError, ParserErrorCause};
 use winnow::{
     Parser,
-    ascii::space0,
+    ascii::{line_ending, space0},
     combinator::{alt, cut_err, opt, preceded, repeat, separated, terminated},
     stream::Location,
     token::{one_of, take_while},
@@ -48,7 +48,7 @@ pub enum Cause {
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Attributes<'i>, ParseError> {
     let start = input.current_token_start();
 
-    repeat(0.., terminated(parse_attribute, '\n'))
+    repeat(0.., terminated(parse_attribute, line_ending))
         .fold(Vec::new, |mut acc, attrs| {
             acc.extend(attrs);
             acc
-- 
2.43.0


From 8ff709785b29bd09e3807bea5f6d1d25d6e712d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 15/44] fix: parse every value of a list once instead of in
 exponential time

---
 crates/mabo-parser/src/parser.rs          | 50 ++++++++---------------
 crates/mabo-parser/src/parser/enums.rs    |  6 +--
 crates/mabo-parser/src/parser/fields.rs   | 12 +-----
 crates/mabo-parser/src/parser/generics.rs | 23 ++++-------
 crates/mabo-parser/src/parser/types.rs    | 14 ++-----
 5 files changed, 34 insertions(+), 71 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index c54703a..5b4f709 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -228,48 +228,34 @@ pub fn punctuate<I, O, P, E, F, G>(mut f: F, mut g: G) -> impl ModalParser<I, Pu
 where
     I: Stream,
     E: ParserError<I>,
-    F: ModalParser<I, (O, P), E>,
-    G: ModalParser<I, (O, Option<P>), E>,
+    F: ModalParser<I, O, E>,
+    G: ModalParser<I, P, E>,
 {
     trace("punctuate", move |i: &mut I| {
         let mut values = Vec::new();
-        let mut start_prev = None;
+        let mut last = f.parse_next(i)?;
 
         loop {
             let start = i.checkpoint();
-            let len = i.eof_offset();
-
-            match f.parse_next(i) {
-                Ok((o, range)) => {
-                    if i.eof_offset() == len {
-                        return Err(ErrMode::assert(i, "`repeat` parsers must always consume"));
-                    }
 
-                    values.push((o, range));
-                    start_prev = Some(start);
+            // Every value is parsed exactly once. Trying again with and without the separator would
+            // take exponential time for nested lists.
+            let punct = match g.parse_next(i) {
+                Ok(punct) => punct,
+                Err(ErrMode::Backtrack(_)) => {
+                    i.reset(&start);
+                    return Ok(Punctuated::new(values, (last, None)));
                 }
+                Err(e) => return Err(e),
+            };
+
+            let start = i.checkpoint();
+
+            match f.parse_next(i) {
+                Ok(value) => values.push((std::mem::replace(&mut last, value), punct)),
                 Err(ErrMode::Backtrack(_)) => {
                     i.reset(&start);
-                    let (o, range) = match g.parse_next(i) {
-                        Ok(o) => Ok(o),
-                        // Both parsers failed. Lets undo the last successful action from the first
-                        // parser and redo it with the second one to get the last value.
-                        //
-                        // Technically we could just take the parsed data from the first parser and
-                        // transform it, but there is no guarantee that the parsers are similar
-                        // enough to do this transformation.
-                        Err(ErrMode::Backtrack(e)) => {
-                            if let Some(start) = start_prev {
-                                values.pop();
-                                i.reset(&start);
-                                g.parse_next(i)
-                            } else {
-                                Err(ErrMode::Backtrack(e))
-                            }
-                        }
-                        Err(e) => Err(e),
-                    }?;
-                    return Ok(Punctuated::new(values, (o, range)));
+                    return Ok(Punctuated::new(values, (last, Some(punct))));
                 }
                 Err(e) => return Err(e),
             }
diff --git a/crates/mabo-parser/src/parser/enums.rs b/crates/mabo-parser/src/parser/enums.rs
index a948a7d..434cbf2 100644
--- a/crates/mabo-parser/src/parser/enums.rs
+++ b/crates/mabo-parser/src/parser/enums.rs
@@ -127,11 +127,7 @@ pub(super) fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
 fn parse_variants<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<Variant<'i>>), Cause> {
-    surround(punctuate(
-        (parse_variant, ws(token::Comma::parser())),
-        (parse_variant, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_variant, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_variant<'i>(input: &mut Input<'i>) -> Result<Variant<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/fields.rs b/crates/mabo-parser/src/parser/fields.rs
index b4662d7..8e4afcb 100644
--- a/crates/mabo-parser/src/parser/fields.rs
+++ b/crates/mabo-parser/src/parser/fields.rs
@@ -97,21 +97,13 @@ pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Fields<'i>, ParseError>
 fn parse_named<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Brace, Punctuated<NamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_named_field, ws(token::Comma::parser())),
-        (parse_named_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_named_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unnamed<'i>(
     input: &mut Input<'i>,
 ) -> Result<(token::Parenthesis, Punctuated<UnnamedField<'i>>), Cause> {
-    surround(punctuate(
-        (parse_unnamed_field, ws(token::Comma::parser())),
-        (parse_unnamed_field, opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
+    surround(punctuate(parse_unnamed_field, ws(token::Comma::parser()))).parse_next(input)
 }
 
 fn parse_unit(input: &mut Input<'_>) -> Result<(), Cause> {
diff --git a/crates/mabo-parser/src/parser/generics.rs b/crates/mabo-parser/src/parser/generics.rs
index 6a6c67a..45dbde6 100644
--- a/crates/mabo-parser/src/parser/generics.rs
+++ b/crates/mabo-parser/src/parser/generics.rs
@@ -1,9 +1,7 @@
 use std::ops::Range;
 
 use mabo_derive::{ParserError, ParserErrorCause};
-use winnow::{
-    Parser, ascii::alphanumeric0, combinator::opt, error::ErrMode, stream::Location, token::one_of,
-};
+use winnow::{Parser, ascii::alphanumeric0, error::ErrMode, stream::Location, token::one_of};
 
 use super::{Input, Result, punctuate, surround, ws};
 use crate::{Generics, Name, highlight, token};
@@ -43,18 +41,15 @@ pub enum Cause {
 }
 
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Generics<'i>, ParseError> {
-    surround(punctuate(
-        (ws(parse_name), ws(token::Comma::parser())),
-        (ws(parse_name), opt(ws(token::Comma::parser()))),
-    ))
-    .parse_next(input)
-    .map(|(angle, types)| Generics { angle, types })
-    .map_err(|e| {
-        e.map(|cause| ParseError {
-            at: input.current_token_start()..input.current_token_start(),
-            cause,
+    surround(punctuate(ws(parse_name), ws(token::Comma::parser())))
+        .parse_next(input)
+        .map(|(angle, types)| Generics { angle, types })
+        .map_err(|e| {
+            e.map(|cause| ParseError {
+                at: input.current_token_start()..input.current_token_start(),
+                cause,
+            })
         })
-    })
 }
 
 fn parse_name<'i>(input: &mut Input<'i>) -> Result<Name<'i>, Cause> {
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index a905dc9..dce70ca 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -163,11 +163,8 @@ fn parse_generic<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
 
 fn parse_tuple<'i>(input: &mut Input<'i>) -> Result<DataType<'i>, Cause> {
     surround(punctuate(
-        (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-        (
-            ws(parse.map_err2(Cause::from)),
-            opt(ws(token::Comma::parser())),
-        ),
+        ws(parse.map_err2(Cause::from)),
+        ws(token::Comma::parser()),
     ))
     .parse_next(input)
     .map(|(paren, types)| DataType::Tuple { paren, types })
@@ -200,11 +197,8 @@ fn parse_external<'i>(input: &mut Input<'i>) -> Result<ExternalType<'i>, Cause>
         .map(Option::unwrap_or_default),
         parse_external_name,
         opt(surround(punctuate(
-            (ws(parse.map_err2(Cause::from)), ws(token::Comma::parser())),
-            (
-                ws(parse.map_err2(Cause::from)),
-                opt(ws(token::Comma::parser())),
-            ),
+            ws(parse.map_err2(Cause::from)),
+            ws(token::Comma::parser()),
         ))),
     )
         .parse_next(input)
-- 
2.43.0


From 0ed46e9614d998e8d43c14d65804e3d24a659082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 16/44] fix: report the location of the invalid tuple instead
 of the whole type

---
 crates/mabo-compiler/src/validate/tuples.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-compiler/src/validate/tuples.rs b/crates/mabo-compiler/src/validate/tuples.rs
index 7f590dc..83f6ac8 100644
--- a/crates/mabo-compiler/src/validate/tuples.rs
+++ b/crates/mabo-compiler/src/validate/tuples.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use mabo_parser::{
-    Const, DataType, Enum, Fields, Spanned, Struct, Type, TypeAlias, punctuated::ValuesIter,
+    Const, DataType, Enum, Fields, Span, Spanned, Struct, Type, TypeAlias, punctuated::ValuesIter,
 };
 use miette::Diagnostic;
 use thiserror::Error;
@@ -70,7 +70,7 @@ pub(crate) fn validate_const_tuples(value: &Const<'_>) -> Result<(), TupleSize>
 }
 
 fn validate_tuple_size(value: &Type<'_>) -> Result<(), TupleSize> {
-    visit_tuples(value, &mut |tuples| {
+    visit_tuples(value, &mut |span, tuples| {
         let amount = match tuples.len() {
             0 => InvalidTupleAmount::Empty,
             1 => InvalidTupleAmount::Single,
@@ -79,16 +79,16 @@ fn validate_tuple_size(value: &Type<'_>) -> Result<(), TupleSize> {
         };
         Err(TupleSize {
             amount,
-            declared: value.span().into(),
+            declared: span.into(),
         })
     })
 }
 
-/// Iterate recursively through the data type and invoke the closure on each discovered external
-/// type.
+/// Iterate recursively through the data type and invoke the closure on the location and elements
+/// of each discovered tuple.
 fn visit_tuples<E>(
     value: &Type<'_>,
-    visit: &mut impl FnMut(ValuesIter<'_, Type<'_>>) -> Result<(), E>,
+    visit: &mut impl FnMut(Span, ValuesIter<'_, Type<'_>>) -> Result<(), E>,
 ) -> Result<(), E> {
     match &value.value {
         DataType::Bool
@@ -120,7 +120,7 @@ fn visit_tuples<E>(
             visit_tuples(value, visit)
         }
         DataType::Tuple { types, .. } => {
-            visit(types.values())?;
+            visit(value.span(), types.values())?;
             types.values().try_for_each(|ty| visit_tuples(ty, visit))
         }
         DataType::External(ty) => {
-- 
2.43.0


From ae4e5105b715afb1de6f9c86ada1fc1d2759b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 17/44] fix: validate the generics of type aliases

---
 crates/mabo-compiler/src/validate/generics.rs | 33 ++++++++++++++++++-
 crates/mabo-compiler/src/validate/mod.rs      |  3 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-compiler/src/validate/generics.rs b/crates/mabo-compiler/src/validate/generics.rs
index 40dbc4b..788c911 100644
--- a/crates/mabo-compiler/src/validate/generics.rs
+++ b/crates/mabo-compiler/src/validate/generics.rs
@@ -1,6 +1,8 @@
 use std::ops::Range;
 
-use mabo_parser::{DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type};
+use mabo_parser::{
+    DataType, Enum, ExternalType, Fields, Generics, Span, Spanned, Struct, Type, TypeAlias,
+};
 use miette::Diagnostic;
 use rustc_hash::{FxBuildHasher, FxHashMap};
 use thiserror::Error;
@@ -97,6 +99,35 @@ pub fn validate_enum_generics(value: &Enum<'_>) -> Result<(), InvalidGenericType
     })
 }
 
+/// Ensure all generics in a type alias are unique and used.
+pub fn validate_alias_generics(value: &TypeAlias<'_>) -> Result<(), InvalidGenericType> {
+    let Some(generics) = &value.generics else {
+        return Ok(());
+    };
+
+    validate_duplicate_generics(generics)?;
+
+    let mut unvisited = generics
+        .types
+        .values()
+        .map(|g| (g.get(), g.span()))
+        .collect::<FxHashMap<_, _>>();
+
+    visit_externals(&value.target, &mut |external| {
+        if external.path.is_empty() && external.generics.is_none() {
+            unvisited.remove(external.name.get());
+        }
+    });
+
+    unvisited.into_iter().next().map_or(Ok(()), |(name, span)| {
+        Err(UnusedGeneric {
+            name: name.to_owned(),
+            declared: span.into(),
+        }
+        .into())
+    })
+}
+
 /// Ensure all generic type arguments are unique within a struct or enum.
 fn validate_duplicate_generics(value: &Generics<'_>) -> Result<(), DuplicateGenericName> {
     let mut visited = FxHashMap::with_capacity_and_hasher(value.types.len(), FxBuildHasher);
diff --git a/crates/mabo-compiler/src/validate/mod.rs b/crates/mabo-compiler/src/validate/mod.rs
index 73cceba..662f8d3 100644
--- a/crates/mabo-compiler/src/validate/mod.rs
+++ b/crates/mabo-compiler/src/validate/mod.rs
@@ -61,7 +61,7 @@ impl From<DuplicateFieldName> for Error {
 ///   namespace.
 /// - IDs in field names or enum variant names are unique.
 /// - Fields names in structs or enum variants are unique.
-/// - Generic type parameters in a struct or enum are unique.
+/// - Generic type parameters in a struct, enum or type alias are unique.
 /// - All generic type parameters are used.
 ///
 /// # Errors
@@ -91,6 +91,7 @@ fn definition(value: &Definition<'_>) -> Result<(), Error> {
             tuples::validate_enum_tuples(e)?;
         }
         Definition::TypeAlias(a) => {
+            generics::validate_alias_generics(a)?;
             tuples::validate_alias_tuples(a)?;
         }
         Definition::Const(c) => {
-- 
2.43.0


From 729f50fc1eea81506ca97d859af0fb2b7217a04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 18/44] fix: print float and string literals so that they can
 be parsed again

---
 crates/mabo-parser/src/lib.rs             | 13 ++++++++++++-
 crates/mabo-parser/src/parser/literals.rs |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-parser/src/lib.rs b/crates/mabo-parser/src/lib.rs
index dc29c78..0d35de9 100644
--- a/crates/mabo-parser/src/lib.rs
+++ b/crates/mabo-parser/src/lib.rs
@@ -1266,13 +1266,24 @@ impl Display for LiteralValue {
         match *self {
             Self::Bool(v) => v.fmt(f),
             Self::Int(v) => v.fmt(f),
-            Self::Float(v) => v.fmt(f),
+            Self::Float(v) => fmt_float(v, f),
             Self::String(ref v) => write!(f, "{v:?}"),
             Self::Bytes(ref v) => write!(f, "{v:?}"),
         }
     }
 }
 
+/// Print a floating point number in the syntax of schemas, which always requires a fraction.
+fn fmt_float(value: f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+    let text = format!("{value:?}");
+    match text.split_once('e') {
+        Some((mantissa, exponent)) if !mantissa.contains('.') => {
+            write!(f, "{mantissa}.0e{exponent}")
+        }
+        _ => f.write_str(&text),
+    }
+}
+
 /// Import declaration for an external schema.
 #[derive(Debug, PartialEq)]
 pub struct Import<'a> {
diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index e5e19bb..a0af750 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -195,7 +195,7 @@ fn parse_string_escaped_char(input: &mut Input<'_>) -> Result<char, Cause> {
             'b' => 'b'.value('\u{08}'),
             'f' => 'f'.value('\u{0c}'),
             '\\' => '\\'.value('\\'),
-            '\0' => '\0'.value('\0'),
+            '0' => '0'.value('\0'),
             '/' => '/'.value('/'),
             '"' => '"'.value('"'),
             'u' => parse_string_unicode,
-- 
2.43.0


From ae53d27abae186693dcd168a01687b0fec2046c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 19/44] fix: reject float literals that are too large to be
 represented

---
 crates/mabo-parser/src/parser/literals.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mabo-parser/src/parser/literals.rs b/crates/mabo-parser/src/parser/literals.rs
index a0af750..259d690 100644
--- a/crates/mabo-parser/src/parser/literals.rs
+++ b/crates/mabo-parser/src/parser/literals.rs
@@ -130,6 +130,7 @@ fn parse_float(input: &mut Input<'_>) -> Result<f64, Cause> {
     )
         .take()
         .parse_to()
+        .verify(|value: &f64| value.is_finite())
         .parse_next(input)
 }
 
-- 
2.43.0


From 2e6a9cea81a6cc72358e53884be3cbf77a39a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 20/44] fix: limit the nesting depth of schemas instead of
 exhausting the stack

---
 crates/mabo-parser/src/parser.rs            | 40 ++++++++++++++++++---
 crates/mabo-parser/src/parser/attributes.rs |  4 +--
 crates/mabo-parser/src/parser/types.rs      |  6 ++--
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/crates/mabo-parser/src/parser.rs b/crates/mabo-parser/src/parser.rs
index 5b4f709..6328cbd 100644
--- a/crates/mabo-parser/src/parser.rs
+++ b/crates/mabo-parser/src/parser.rs
@@ -1,4 +1,4 @@
-use std::ops::Range;
+use std::{cell::Cell, ops::Range};
 
 use winnow::{
     ascii::{line_ending, multispace0, space0},
@@ -74,7 +74,7 @@ pub(crate) fn parse_schema<'i>(input: &mut Input<'i>) -> Result<Schema<'i>, Pars
 }
 
 fn parse_definition<'i>(input: &mut Input<'i>) -> Result<Definition<'i>, ParseDefinitionError> {
-    (
+    nested((
         ws(comments::parse.map_err2(Into::into)),
         ws(attributes::parse.map_err2(Into::into)),
         preceded(
@@ -90,9 +90,9 @@ fn parse_definition<'i>(input: &mut Input<'i>) -> Result<Definition<'i>, ParseDe
                 _ => fail,
             },
         ),
-    )
-        .parse_next(input)
-        .map(|(comment, attributes, def)| def.with_comment(comment).with_attributes(attributes))
+    ))
+    .parse_next(input)
+    .map(|(comment, attributes, def)| def.with_comment(comment).with_attributes(attributes))
 }
 
 mod ids {
@@ -263,6 +263,36 @@ where
     })
 }
 
+/// Maximum amount of definitions, types and attributes that can be nested in each other.
+const MAX_DEPTH: usize = 64;
+
+thread_local! {
+    /// How deep the parser currently is inside of nested elements.
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Limit the recursion of the inner parser, so that absurdly nested input is reported as an error
+/// instead of exhausting the stack.
+#[inline]
+fn nested<I, O, E, F>(mut inner: F) -> impl ModalParser<I, O, E>
+where
+    I: Stream,
+    E: ParserError<I>,
+    F: ModalParser<I, O, E>,
+{
+    trace("nested", move |i: &mut I| {
+        let depth = DEPTH.get();
+        if depth >= MAX_DEPTH {
+            return Err(ErrMode::Cut(E::from_input(i)));
+        }
+
+        DEPTH.set(depth + 1);
+        let result = inner.parse_next(i);
+        DEPTH.set(depth);
+        result
+    })
+}
+
 pub fn surround<I, O, D, E, F>(f: F) -> impl ModalParser<I, (D, O), E>
 where
     I: Compare<char> + Location + Stream + StreamIsPartial,
diff --git a/crates/mabo-parser/src/parser/attributes.rs b/crates/mabo-parser/src/parser/attributes.rs
index 5d12208..a3fd4bb 100644
--- a/crates/mabo-parser/src/parser/attributes.rs
+++ b/crates/mabo-parser/src/parser/attributes.rs
@@ -9,7 +9,7 @@ use winnow::{
     token::{one_of, take_while},
 };
 
-use super::{Input, ParserExt, Result, literals, ws};
+use super::{Input, ParserExt, Result, literals, nested, ws};
 use crate::{
     Attribute, AttributeValue, Attributes, Literal, highlight,
     token::{self, Delimiter},
@@ -92,7 +92,7 @@ fn parse_name<'i>(input: &mut Input<'i>) -> Result<&'i str, Cause> {
 
 fn parse_value<'i>(input: &mut Input<'i>) -> Result<AttributeValue<'i>, Cause> {
     alt((
-        parse_multi_value.map(AttributeValue::Multi),
+        nested(parse_multi_value).map(AttributeValue::Multi),
         parse_single_value.map(AttributeValue::Single),
         parse_unit_value.map(|()| AttributeValue::Unit),
     ))
diff --git a/crates/mabo-parser/src/parser/types.rs b/crates/mabo-parser/src/parser/types.rs
index dce70ca..b5359b3 100644
--- a/crates/mabo-parser/src/parser/types.rs
+++ b/crates/mabo-parser/src/parser/types.rs
@@ -10,7 +10,7 @@ use winnow::{
     token::{literal, one_of, take_while},
 };
 
-use super::{Input, ParserExt, Result, imports, punctuate, ws};
+use super::{Input, ParserExt, Result, imports, nested, punctuate, ws};
 use crate::{DataType, ExternalType, Name, Type, highlight, parser::surround, token};
 
 /// Encountered an invalid type definition.
@@ -49,13 +49,13 @@ pub enum Cause {
 pub(super) fn parse<'i>(input: &mut Input<'i>) -> Result<Type<'i>, ParseError> {
     let start = input.current_token_start();
 
-    alt((
+    nested(alt((
         parse_basic,
         parse_generic,
         parse_tuple,
         parse_array,
         parse_external.map(DataType::External),
-    ))
+    )))
     .with_span()
     .parse_next(input)
     .map(Into::into)
-- 
2.43.0


From 8e05e93fccc29b07fe6bf151acc00d1178657111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 21/44] fix: don't treat directories named *.mabo as schema
 files

---
 crates/mabo-project/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 5956681..d78e81f 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -200,6 +200,11 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
 
     for entry in walk {
         let entry = entry.map_err(Error::Walk)?;
+
+        if !entry.file_type().is_some_and(|ty| ty.is_file()) {
+            continue;
+        }
+
         let path = entry
             .path()
             .strip_prefix(base)
-- 
2.43.0


From e0a0516b650445aa592500ffd6e1ed64d0289761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 22/44] fix: resolve project files into absolute paths for
 relative directories

---
 crates/mabo-project/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index d78e81f..7f09d2c 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -6,7 +6,7 @@
 
 use std::{
     fs,
-    path::{Path, PathBuf},
+    path::{self, Path, PathBuf},
 };
 
 use globset::{GlobBuilder, GlobSetBuilder};
@@ -124,7 +124,7 @@ pub fn discover(base: impl AsRef<Path>) -> Result<Vec<Project>> {
         })?
         .compile_matcher();
 
-    Walk::new(base)
+    Walk::new(absolute(base.as_ref())?)
         .filter_map(Result::ok)
         .filter(|f| f.file_type().is_some_and(|ty| ty.is_file()) && pattern.is_match(f.path()))
         .filter_map(|file| {
@@ -144,10 +144,18 @@ pub fn discover(base: impl AsRef<Path>) -> Result<Vec<Project>> {
 ///
 /// Will return `Err` in case of any I/O failure, missing files or an invalid project file format.
 pub fn load(base: impl AsRef<Path>) -> Result<Project> {
-    let base = base.as_ref();
+    let base = absolute(base.as_ref())?;
     let file = base.join("Mabo.toml");
 
-    load_project(base, &file)
+    load_project(&base, &file)
+}
+
+/// Make the base directory absolute, so that all resolved file paths are absolute as well.
+fn absolute(base: &Path) -> Result<PathBuf> {
+    path::absolute(base).map_err(|source| Error::Read {
+        source,
+        file: base.to_owned(),
+    })
 }
 
 fn load_project(base: &Path, file: &Path) -> Result<Project> {
-- 
2.43.0


From e815c3f6a1b43ecb755bc440b0e87681eee27479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 23/44] fix: declare Go type parameters by the name they are
 used with

---
 crates/mabo-go/src/definition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b1fcc8f..b18a05d 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -222,7 +222,7 @@ impl Display for RenderGenerics<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value} any")?;
+            write!(f, "{} any", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
@@ -261,7 +261,7 @@ impl Display for RenderGenericNames<'_> {
             if i > 0 {
                 f.write_str(", ")?;
             }
-            write!(f, "{value}")?;
+            write!(f, "{}", heck::AsUpperCamelCase(value))?;
         }
         f.write_char(']')
     }
-- 
2.43.0


From 94ee806d763a7a124f0fa8fc0217d7e8abb01103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:32 +0000
Subject: [PATCH 24/44] fix: keep the type parameters of type aliases in Go

---
 crates/mabo-go/src/definition.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index b18a05d..f91df11 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -363,12 +363,16 @@ impl Display for RenderAlias<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         writeln!(
             f,
-            "{}type {} {}",
+            "{}type {}{} {}",
             RenderComment {
                 indent: Indent(0),
                 comment: &self.0.comment,
             },
             heck::AsUpperCamelCase(&self.0.name),
+            RenderGenerics {
+                generics: &self.0.generics,
+                fields_filter: None
+            },
             RenderType(&self.0.target),
         )
     }
-- 
2.43.0


From ea9cca5cb69e3bafdd79a01132f0a6e35d844989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 25/44] fix: find generics that are used as type arguments in
 Go enum variants

---
 crates/mabo-go/src/definition.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index f91df11..52d3ee7 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -717,7 +717,9 @@ fn uses_generic(generic: &str, fields: &Fields<'_>) -> bool {
             | Type::Array(ty, _) => visit_external(ty, visit),
             Type::HashMap(kv) => visit_external(&kv.0, visit) || visit_external(&kv.1, visit),
             Type::Tuple(types) => types.iter().any(|ty| visit_external(ty, visit)),
-            Type::External(ty) => visit(ty),
+            Type::External(ty) => {
+                visit(ty) || ty.generics.iter().any(|ty| visit_external(ty, visit))
+            }
         }
     }
 
-- 
2.43.0


From 318dbf119d1903fd9074fd01c02a30cefdcccf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 26/44] fix: render huge float constants in exponent form in Go

---
 crates/mabo-go/src/definition.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 52d3ee7..534627c 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -558,6 +558,8 @@ impl Display for RenderLiteral<'_> {
         match &self.0 {
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Int(i) => write!(f, "{i}"),
+            // Go limits the size of integer literals, which huge floats look like otherwise.
+            Literal::Float(f2) if f2.abs() >= 1e16 => write!(f, "{f2:e}"),
             Literal::Float(f2) => write!(f, "{f2}"),
             Literal::String(s) => write!(f, "{s:?}"),
             Literal::Bytes(b) => {
-- 
2.43.0


From f2cfd504c9b394cf164111cd92ccb7e60a04886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:53 +0000
Subject: [PATCH 27/44] fix: avoid Go keywords as parameter and package names

---
 crates/mabo-go/src/definition.rs | 52 +++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 534627c..4e16d71 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -113,10 +113,53 @@ impl Display for RenderPackage<'_> {
             )?;
         }
 
-        writeln!(f, "package {}\n", heck::AsSnakeCase(self.0))
+        writeln!(f, "package {}\n", RenderIdent(heck::AsSnakeCase(self.0)))
     }
 }
 
+/// Identifier that gets an underscore appended if it would be a keyword otherwise.
+struct RenderIdent<T>(T);
+
+impl<T: Display> Display for RenderIdent<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let name = self.0.to_string();
+
+        f.write_str(&name)?;
+        if KEYWORDS.contains(&name.as_str()) {
+            f.write_char('_')?;
+        }
+        Ok(())
+    }
+}
+
+const KEYWORDS: &[&str] = &[
+    "break",
+    "case",
+    "chan",
+    "const",
+    "continue",
+    "default",
+    "defer",
+    "else",
+    "fallthrough",
+    "for",
+    "func",
+    "go",
+    "goto",
+    "if",
+    "import",
+    "interface",
+    "map",
+    "package",
+    "range",
+    "return",
+    "select",
+    "struct",
+    "switch",
+    "type",
+    "var",
+];
+
 struct RenderImports;
 
 impl Display for RenderImports {
@@ -325,7 +368,7 @@ impl Display for RenderParameters<'_> {
             writeln!(
                 f,
                 "\t{} {},",
-                heck::AsLowerCamelCase(&field.name),
+                RenderIdent(heck::AsLowerCamelCase(&field.name)),
                 RenderType(&field.ty),
             )?;
         }
@@ -348,7 +391,7 @@ impl Display for RenderConstructor<'_> {
                     f,
                     "\t\t{}: {},",
                     heck::AsUpperCamelCase(&field.name),
-                    heck::AsLowerCamelCase(&field.name)
+                    RenderIdent(heck::AsLowerCamelCase(&field.name))
                 )?;
             }
 
@@ -452,7 +495,8 @@ impl Display for RenderType<'_> {
                 if let Some(path) = path.last() {
                     write!(
                         f,
-                        "{path}.{}{}",
+                        "{}.{}{}",
+                        RenderIdent(path),
                         heck::AsUpperCamelCase(name),
                         RenderGenericTypes(generics),
                     )
-- 
2.43.0


From 9c7854fedeb4818185299e6e1a933200276aad6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 28/44] fix: report all schema problems in `mabo check` and
 fail on them

---
 crates/mabo-cli/src/main.rs | 50 ++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 0466330..7193cf1 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -6,7 +6,7 @@ use std::{
     process::ExitCode,
 };
 
-use anyhow::Context;
+use anyhow::{Context, anyhow, ensure};
 use mabo_parser::Schema;
 use miette::Context as _;
 
@@ -44,17 +44,61 @@ fn main() -> ExitCode {
 }
 
 fn check(args: CheckArgs) -> anyhow::Result<()> {
+    let mut failed = false;
+    let mut inputs = Vec::new();
+    let mut schemas = Vec::new();
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}"))?;
+        match fs::read_to_string(&file).with_context(|| format!("failed reading {file:?}")) {
+            Ok(buf) => inputs.push((file, buf)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                failed = true;
+            }
+        }
+    }
 
-        if let Err(e) = Schema::parse(&buf, Some(&file)).wrap_err("failed parsing schema file") {
+    for (file, buf) in &inputs {
+        match check_schema(file, buf) {
+            Ok(schema) => schemas.push((file, schema)),
+            Err(e) => {
+                eprintln!("{e:?}");
+                failed = true;
+            }
+        }
+    }
+
+    if !failed {
+        let mut names = Vec::new();
+
+        for (file, schema) in &schemas {
+            let name = file
+                .file_stem()
+                .and_then(|name| name.to_str())
+                .ok_or_else(|| anyhow!("the name of {file:?} is not valid UTF-8"))?;
+            names.push((name, schema));
+        }
+
+        if let Err(e) =
+            mabo_compiler::resolve_schemas(&names).wrap_err("failed resolving schema files")
+        {
             eprintln!("{e:?}");
+            failed = true;
         }
     }
 
+    ensure!(!failed, "not all schema files are valid");
+
     Ok(())
 }
 
+fn check_schema<'a>(file: &Path, buf: &'a str) -> miette::Result<Schema<'a>> {
+    let schema = Schema::parse(buf, Some(file)).wrap_err("failed parsing schema file")?;
+    mabo_compiler::validate_schema(&schema).wrap_err("failed validating schema file")?;
+
+    Ok(schema)
+}
+
 fn format(args: FmtArgs) -> anyhow::Result<()> {
     for file in project_or_files(args.project_dir, args.files)? {
         let buf = fs::read_to_string(&file)?;
-- 
2.43.0


From 27009912b3215c8259cce6ca1fa54d5f0b80897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:37 +0000
Subject: [PATCH 29/44] fix: skip directories matched by the file patterns of
 the CLI

---
 crates/mabo-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 7193cf1..ddcf815 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -160,7 +160,7 @@ fn project_or_files(
         for pattern in patterns {
             for entry in glob::glob(&pattern).context("failed parsing glob pattern")? {
                 let entry = entry.context("failed reading entry")?;
-                if entry.extension().is_none_or(|ext| ext != "mabo") {
+                if entry.extension().is_none_or(|ext| ext != "mabo") || entry.is_dir() {
                     continue;
                 }
                 files.push(entry);
-- 
2.43.0


From 088450fe1e26efb0419b935745ff9cb98623d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:45 +0000
Subject: [PATCH 30/44] fix: process the remaining files after a failing one in
 `mabo fmt` and `mabo doc`

---
 crates/mabo-cli/src/main.rs | 58 +++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index ddcf815..695aa3f 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -8,7 +8,7 @@ use std::{
 
 use anyhow::{Context, anyhow, ensure};
 use mabo_parser::Schema;
-use miette::Context as _;
+use miette::{Context as _, IntoDiagnostic};
 
 use self::cli::{CheckArgs, Cli, DocArgs, FmtArgs};
 
@@ -100,21 +100,31 @@ fn check_schema<'a>(file: &Path, buf: &'a str) -> miette::Result<Schema<'a>> {
 }
 
 fn format(args: FmtArgs) -> anyhow::Result<()> {
+    let mut failed = false;
+
     for file in project_or_files(args.project_dir, args.files)? {
-        let buf = fs::read_to_string(&file)?;
-        let schema = match Schema::parse(&buf, Some(&file)).wrap_err("Failed parsing schema file") {
-            Ok(schema) => schema,
-            Err(e) => {
-                eprintln!("{e:?}");
-                continue;
-            }
-        };
+        if let Err(e) = format_file(&file) {
+            eprintln!("{e:?}");
+            failed = true;
+        }
+    }
 
-        let formatted = schema.to_string();
+    ensure!(!failed, "not all schema files could be formatted");
 
-        if buf != formatted {
-            fs::write(file, &formatted)?;
-        }
+    Ok(())
+}
+
+fn format_file(file: &Path) -> miette::Result<()> {
+    let buf = fs::read_to_string(file)
+        .into_diagnostic()
+        .wrap_err_with(|| format!("failed reading {file:?}"))?;
+    let schema = Schema::parse(&buf, Some(file)).wrap_err("Failed parsing schema file")?;
+    let formatted = schema.to_string();
+
+    if buf != formatted {
+        fs::write(file, &formatted)
+            .into_diagnostic()
+            .wrap_err_with(|| format!("failed writing {file:?}"))?;
     }
 
     Ok(())
@@ -122,19 +132,29 @@ fn format(args: FmtArgs) -> anyhow::Result<()> {
 
 fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
+    let mut failed = false;
 
     for file in project.files {
-        let content = std::fs::read_to_string(&file)?;
-        let schema = mabo_parser::Schema::parse(&content, Some(&file))?;
-        let schema = mabo_compiler::simplify_schema(&schema);
-        let docs = mabo_doc::render_schema(&mabo_doc::Opts {}, &schema)?;
-
-        write_doc_output(&docs, &args.out_dir.join(docs.name))?;
+        if let Err(e) = doc_file(&file, &args.out_dir) {
+            eprintln!("{e:?}");
+            failed = true;
+        }
     }
 
+    ensure!(!failed, "not all schema files could be documented");
+
     Ok(())
 }
 
+fn doc_file(file: &Path, out_dir: &Path) -> anyhow::Result<()> {
+    let content = fs::read_to_string(file).with_context(|| format!("failed reading {file:?}"))?;
+    let schema = mabo_parser::Schema::parse(&content, Some(file))?;
+    let schema = mabo_compiler::simplify_schema(&schema);
+    let docs = mabo_doc::render_schema(&mabo_doc::Opts {}, &schema)?;
+
+    write_doc_output(&docs, &out_dir.join(docs.name))
+}
+
 fn write_doc_output(output: &mabo_doc::Output<'_>, parent: &Path) -> anyhow::Result<()> {
     let path = parent.join(output.name);
     let file = parent.join(&output.file);
-- 
2.43.0


From a38c007e8ce3e6eaefb44d55ea8e2d497fb49034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 31/44] fix: name the schema file in all errors of the CLI

---
 crates/mabo-cli/src/main.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index 695aa3f..c8717ec 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -8,7 +8,7 @@ use std::{
 
 use anyhow::{Context, anyhow, ensure};
 use mabo_parser::Schema;
-use miette::{Context as _, IntoDiagnostic};
+use miette::{Context as _, IntoDiagnostic, NamedSource};
 
 use self::cli::{CheckArgs, Cli, DocArgs, FmtArgs};
 
@@ -93,8 +93,14 @@ fn check(args: CheckArgs) -> anyhow::Result<()> {
 }
 
 fn check_schema<'a>(file: &Path, buf: &'a str) -> miette::Result<Schema<'a>> {
-    let schema = Schema::parse(buf, Some(file)).wrap_err("failed parsing schema file")?;
-    mabo_compiler::validate_schema(&schema).wrap_err("failed validating schema file")?;
+    let schema = Schema::parse(buf, Some(file))
+        .wrap_err_with(|| format!("failed parsing schema file {file:?}"))?;
+    mabo_compiler::validate_schema(&schema)
+        .map_err(|e| {
+            miette::Report::new(e)
+                .with_source_code(NamedSource::new(file.to_string_lossy(), buf.to_owned()))
+        })
+        .wrap_err_with(|| format!("failed validating schema file {file:?}"))?;
 
     Ok(schema)
 }
@@ -118,7 +124,8 @@ fn format_file(file: &Path) -> miette::Result<()> {
     let buf = fs::read_to_string(file)
         .into_diagnostic()
         .wrap_err_with(|| format!("failed reading {file:?}"))?;
-    let schema = Schema::parse(&buf, Some(file)).wrap_err("Failed parsing schema file")?;
+    let schema = Schema::parse(&buf, Some(file))
+        .wrap_err_with(|| format!("failed parsing schema file {file:?}"))?;
     let formatted = schema.to_string();
 
     if buf != formatted {
@@ -135,7 +142,9 @@ fn doc(args: DocArgs) -> anyhow::Result<()> {
     let mut failed = false;
 
     for file in project.files {
-        if let Err(e) = doc_file(&file, &args.out_dir) {
+        if let Err(e) =
+            doc_file(&file, &args.out_dir).with_context(|| format!("failed documenting {file:?}"))
+        {
             eprintln!("{e:?}");
             failed = true;
         }
-- 
2.43.0


From 3008a24ccfd920382accbbbf42d5f553c0c24ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:52 +0000
Subject: [PATCH 32/44] fix: keep messages that arrive while the language
 server waits for a reply

---
 crates/mabo-lsp/src/client.rs | 65 ++++++++++++++++++++---------------
 crates/mabo-lsp/src/main.rs   |  2 +-
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/crates/mabo-lsp/src/client.rs b/crates/mabo-lsp/src/client.rs
index 01b7dce..00a5c29 100644
--- a/crates/mabo-lsp/src/client.rs
+++ b/crates/mabo-lsp/src/client.rs
@@ -1,7 +1,10 @@
-use std::time::Duration;
+use std::{
+    collections::VecDeque,
+    time::{Duration, Instant},
+};
 
-use anyhow::{Context, Result, bail, ensure};
-use log::trace;
+use anyhow::{Context, Result, bail};
+use log::{debug, trace};
 use lsp_server::{Connection, Message, Notification, Request, Response};
 use lsp_types::{
     ConfigurationItem, ConfigurationParams, Diagnostic, PublishDiagnosticsParams, Registration,
@@ -13,11 +16,24 @@ use lsp_types::{
 pub struct Client<'a> {
     conn: &'a Connection,
     next_id: i32,
+    /// Messages that arrived while waiting for the response to a request.
+    pending: VecDeque<Message>,
 }
 
 impl<'a> Client<'a> {
     pub fn new(conn: &'a Connection) -> Self {
-        Self { conn, next_id: 0 }
+        Self {
+            conn,
+            next_id: 0,
+            pending: VecDeque::new(),
+        }
+    }
+
+    /// Next message to handle, or [`None`] if the client closed the connection.
+    pub fn next_message(&mut self) -> Option<Message> {
+        self.pending
+            .pop_front()
+            .or_else(|| self.conn.receiver.recv().ok())
     }
 
     fn next_id(&mut self) -> i32 {
@@ -53,30 +69,25 @@ impl<'a> Client<'a> {
             .send_timeout(request, Duration::from_secs(2))
             .context("timeout sending request")?;
 
-        match self
-            .conn
-            .receiver
-            .recv_timeout(Duration::from_secs(2))
-            .context("timeout receiving response")?
-        {
-            Message::Response(Response {
-                id,
-                result,
-                error: None,
-            }) => {
-                ensure!(
-                    id == req_id.into(),
-                    "invalid ID (wanted {id}, but got {req_id})"
-                );
-                let result = result.unwrap_or(serde_json::Value::Null);
-                serde_json::from_value(result).map_err(Into::into)
+        let deadline = Instant::now() + Duration::from_secs(2);
+
+        loop {
+            match self
+                .conn
+                .receiver
+                .recv_deadline(deadline)
+                .context("timeout receiving response")?
+            {
+                Message::Response(Response { id, result, error }) if id == req_id.into() => {
+                    if let Some(error) = error {
+                        bail!("request {id} failed: {error:?}");
+                    }
+                    let result = result.unwrap_or(serde_json::Value::Null);
+                    return serde_json::from_value(result).map_err(Into::into);
+                }
+                Message::Response(resp) => debug!(response:? = resp; "got unexpected response"),
+                msg => self.pending.push_back(msg),
             }
-            Message::Response(Response {
-                id,
-                result: None,
-                error: Some(error),
-            }) => bail!("request {id} failed: {error:?}"),
-            _ => bail!("invalid message type"),
         }
     }
 
diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index d1a8c42..4fb7223 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -67,7 +67,7 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
-    for msg in &conn.receiver {
+    while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
                 if conn.handle_shutdown(&req)? {
-- 
2.43.0


From 75f0da8f2505b91bc0760e61663d7690c41aab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:19 +0000
Subject: [PATCH 33/44] fix: answer all requests after a shutdown and exit when
 asked to

---
 crates/mabo-lsp/src/main.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index 4fb7223..265bbd8 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -4,14 +4,14 @@
 
 use std::{net::Ipv4Addr, time::Instant};
 
-use anyhow::{Result, bail};
-use log::{debug, error, info, warn};
+use anyhow::{Result, bail, ensure};
+use log::{debug, error, info};
 use lsp_server::{Connection, ErrorCode, ExtractError, Notification, Request, RequestId, Response};
 use lsp_types::{
     DocumentSymbol, InitializeParams, InitializedParams, SemanticTokens,
     notification::{
         DidChangeConfiguration, DidChangeTextDocument, DidCloseTextDocument, DidDeleteFiles,
-        DidOpenTextDocument, Initialized, Notification as LspNotification,
+        DidOpenTextDocument, Exit, Initialized, Notification as LspNotification,
     },
     request::{
         DocumentSymbolRequest, HoverRequest, Request as LspRequest, SemanticTokensFullRequest,
@@ -67,17 +67,28 @@ fn main() -> Result<()> {
 }
 
 fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
+    let mut shutdown = false;
+
     while let Some(msg) = state.client.next_message() {
         match msg {
             lsp_server::Message::Request(req) => {
-                if conn.handle_shutdown(&req)? {
-                    info!("shutting down");
-                    return Ok(());
+                if shutdown {
+                    conn.sender.send(
+                        Response::new_err(
+                            req.id,
+                            ErrorCode::InvalidRequest as _,
+                            "the server is shutting down".to_owned(),
+                        )
+                        .into(),
+                    )?;
+                    continue;
                 }
 
                 match req.method.as_str() {
                     Shutdown::METHOD => {
-                        warn!("should never reach this");
+                        info!("shutting down");
+                        shutdown = true;
+                        conn.sender.send(Response::new_ok(req.id, ()).into())?;
                     }
                     HoverRequest::METHOD => {
                         handle_request::<HoverRequest, _>(
@@ -124,6 +135,10 @@ fn main_loop(conn: &Connection, mut state: GlobalState<'_>) -> Result<()> {
                 debug!(response:? = resp; "got unexpected response");
             }
             lsp_server::Message::Notification(notif) => match notif.method.as_str() {
+                Exit::METHOD => {
+                    ensure!(shutdown, "exit without prior shutdown");
+                    return Ok(());
+                }
                 Initialized::METHOD => {
                     handle_notify::<Initialized>(&mut state, notif, handlers::initialized);
                 }
-- 
2.43.0


From 3a805fee8cea3d8f0e93a31121b62491efdfb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 34/44] fix: respond to malformed initialize requests

---
 crates/mabo-lsp/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/main.rs b/crates/mabo-lsp/src/main.rs
index 265bbd8..c600c42 100644
--- a/crates/mabo-lsp/src/main.rs
+++ b/crates/mabo-lsp/src/main.rs
@@ -44,8 +44,15 @@ fn main() -> Result<()> {
 
     let mut state = GlobalState::new(&connection);
 
-    let (id, params) = connection.initialize_start()?;
-    let init_params = serde_json::from_value::<InitializeParams>(params)?;
+    let (id, init_params) = loop {
+        let (id, params) = connection.initialize_start()?;
+        match serde_json::from_value::<InitializeParams>(params) {
+            Ok(params) => break (id, params),
+            Err(e) => connection
+                .sender
+                .send(Response::new_err(id, ErrorCode::InvalidParams as _, e.to_string()).into())?,
+        }
+    };
     let init_result = handlers::initialize(&mut state, init_params)?;
     connection.initialize_finish(id, serde_json::to_value(init_result)?)?;
 
-- 
2.43.0


From d06a8838ce2191085c4252dc9b1284ea7e9a993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 35/44] fix: don't select position encodings that aren't
 supported

---
 crates/mabo-lsp/src/handlers/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 0dcd8f0..df5b69a 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -39,13 +39,22 @@ pub fn initialize(
 ) -> Result<InitializeResult> {
     log::trace!("{params:#?}");
 
-    // Select the most preferred position encoding defined by the client.
+    // Select the most preferred position encoding defined by the client, that is supported.
     state.encoding = params
         .capabilities
         .general
         .as_ref()
         .and_then(|general| general.position_encodings.as_ref())
-        .and_then(|encodings| encodings.first())
+        .and_then(|encodings| {
+            encodings.iter().find(|encoding| {
+                [
+                    PositionEncodingKind::UTF8,
+                    PositionEncodingKind::UTF16,
+                    PositionEncodingKind::UTF32,
+                ]
+                .contains(encoding)
+            })
+        })
         .cloned()
         .unwrap_or(PositionEncodingKind::UTF16);
 
-- 
2.43.0


From 7b05f8e90723ac2d2e69ee9b555cf4da441b8dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:07 +0000
Subject: [PATCH 36/44] fix: apply every document change to the text that the
 previous one left

Positions past the end of a line or the text refer to its end, and changes
without a range replace the whole text, wherever they are in the list.
---
 crates/mabo-lsp/src/handlers/hover.rs |  3 +-
 crates/mabo-lsp/src/handlers/index.rs | 46 +++++++++++----------
 crates/mabo-lsp/src/handlers/mod.rs   | 59 +++++++++++++++------------
 3 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/hover.rs b/crates/mabo-lsp/src/handlers/hover.rs
index 9f2eedc..d0425ac 100644
--- a/crates/mabo-lsp/src/handlers/hover.rs
+++ b/crates/mabo-lsp/src/handlers/hover.rs
@@ -13,10 +13,11 @@ use crate::config;
 pub fn visit_schema(
     config: &config::Hover,
     index: &Index,
+    text: &str,
     item: &Schema<'_>,
     position: lsp::Position,
 ) -> Result<Option<(String, lsp::Range)>> {
-    let position = index.get_offset(position)?;
+    let position = index.get_offset(text, position);
 
     item.definitions
         .iter()
diff --git a/crates/mabo-lsp/src/handlers/index.rs b/crates/mabo-lsp/src/handlers/index.rs
index 649990b..31b1514 100644
--- a/crates/mabo-lsp/src/handlers/index.rs
+++ b/crates/mabo-lsp/src/handlers/index.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use anyhow::{Context, Result};
-use line_index::{LineCol, LineIndex, TextSize, WideEncoding, WideLineCol};
+use line_index::{LineIndex, TextSize, WideEncoding};
 use lsp_types as lsp;
 
 pub struct Index {
@@ -55,28 +55,30 @@ impl Index {
         ))
     }
 
-    pub fn get_offset(&self, position: lsp::Position) -> Result<usize> {
-        let line_col = if let Some(encoding) = self.encoding {
-            self.index
-                .to_utf8(
-                    encoding,
-                    WideLineCol {
-                        line: position.line,
-                        col: position.character,
-                    },
-                )
-                .context("missing utf-16 position")?
-        } else {
-            LineCol {
-                line: position.line,
-                col: position.character,
-            }
+    /// Convert the position to a byte offset in the text that this index was created for.
+    ///
+    /// Positions past the end of a line or the text refer to the end of it.
+    pub fn get_offset(&self, text: &str, position: lsp::Position) -> usize {
+        let Some(line) = self.index.line(position.line) else {
+            return text.len();
         };
+        let start = usize::from(line.start());
+        let line = &text[start..line.end().into()];
+        let line = line.strip_suffix('\n').unwrap_or(line);
+        let line = line.strip_suffix('\r').unwrap_or(line);
+
+        let mut column = 0;
+        for (offset, c) in line.char_indices() {
+            if column >= position.character as usize {
+                return start + offset;
+            }
+            column += match self.encoding {
+                None => c.len_utf8(),
+                Some(WideEncoding::Utf32) => 1,
+                Some(_) => c.len_utf16(),
+            };
+        }
 
-        Ok(self
-            .index
-            .offset(line_col)
-            .context("missing offset position")?
-            .into())
+        start + line.len()
     }
 }
diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index df5b69a..8b09998 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -1,9 +1,9 @@
 #![expect(clippy::needless_pass_by_value, clippy::unnecessary_wraps)]
 
-use std::sync::LazyLock;
+use std::{ops::Range, sync::LazyLock};
 
-use anyhow::{Context, Result};
-use line_index::{LineIndex, TextRange};
+use anyhow::{Context, Result, ensure};
+use line_index::LineIndex;
 use log::{debug, error, warn};
 use lsp_types::{
     DeleteFilesParams, DidChangeConfigurationParams, DidChangeTextDocumentParams,
@@ -211,7 +211,14 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
 
         update_file(params.text_document.uri.clone(), file, |rope, index| {
             for change in params.content_changes {
-                let range = match convert_range(index, change.range) {
+                let Some(range) = change.range else {
+                    *rope = Rope::from_str(&change.text);
+                    index.update(LineIndex::new(&change.text));
+                    continue;
+                };
+
+                let text = String::from(&*rope);
+                let range = match convert_range(index, &text, range) {
                     Ok(range) => range,
                     Err(e) => {
                         error!(error:err = *e; "invalid change");
@@ -219,10 +226,13 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
                     }
                 };
 
-                let start = rope.byte_to_char(range.start().into());
-                let end = rope.byte_to_char(range.end().into());
+                let start = rope.byte_to_char(range.start);
+                let end = rope.byte_to_char(range.end);
                 rope.remove(start..end);
                 rope.insert(start, &change.text);
+
+                // the positions of the next change refer to the text after this one
+                index.update(LineIndex::new(&String::from(&*rope)));
             }
         })
     };
@@ -260,13 +270,13 @@ pub fn hover(state: &mut GlobalState<'_>, params: HoverParams) -> Result<Option<
     debug!(uri:% = uri.as_str(); "requested hover info");
 
     Ok(
-        if let Some((schema, index)) = state.files.get_mut(&uri).and_then(|file| {
-            file.borrow_simplified()
-                .as_ref()
-                .ok()
-                .zip(Some(file.borrow_index()))
-        }) {
-            hover::visit_schema(&state.settings.hover, index, schema, position)?.map(
+        if let Some((schema, file)) = state
+            .files
+            .get(&uri)
+            .and_then(|file| file.borrow_simplified().as_ref().ok().zip(Some(file)))
+        {
+            let (index, text) = (file.borrow_index(), file.borrow_content());
+            hover::visit_schema(&state.settings.hover, index, text, schema, position)?.map(
                 |(value, range)| Hover {
                     contents: HoverContents::Markup(MarkupContent {
                         kind: MarkupKind::Markdown,
@@ -338,18 +348,13 @@ pub fn did_change_configuration(
     }
 }
 
-fn convert_range(index: &Index, range: Option<lsp_types::Range>) -> Result<TextRange> {
-    let range = range.context("incremental change misses range")?;
-
-    let start = index
-        .get_offset(range.start)
-        .context("failed to convert start position to byte offset")?;
+fn convert_range(index: &Index, text: &str, range: lsp_types::Range) -> Result<Range<usize>> {
+    let start = index.get_offset(text, range.start);
+    let end = index.get_offset(text, range.end);
 
-    let end = index
-        .get_offset(range.end)
-        .context("failed to convert end position to byte offset")?;
+    ensure!(start <= end, "range ends before its start");
 
-    Ok(TextRange::new(start.try_into()?, end.try_into()?))
+    Ok(start..end)
 }
 
 fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state::File {
@@ -363,10 +368,14 @@ fn create_file(encoding: &PositionEncodingKind, uri: Uri, text: String) -> state
     .build()
 }
 
-fn update_file(uri: Uri, file: state::File, update: impl FnOnce(&mut Rope, &Index)) -> state::File {
+fn update_file(
+    uri: Uri,
+    file: state::File,
+    update: impl FnOnce(&mut Rope, &mut Index),
+) -> state::File {
     let mut heads = file.into_heads();
 
-    update(&mut heads.rope, &heads.index);
+    update(&mut heads.rope, &mut heads.index);
     let text = String::from(&heads.rope);
 
     heads.index.update(LineIndex::new(&text));
-- 
2.43.0


From ce24b395aac295a0575c7589b56c420cbcc20460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 37/44] fix: keep the content of open documents when their file
 is deleted

---
 crates/mabo-lsp/src/handlers/mod.rs | 12 ++++++++----
 crates/mabo-lsp/src/state.rs        |  5 ++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-lsp/src/handlers/mod.rs b/crates/mabo-lsp/src/handlers/mod.rs
index 8b09998..14b2a04 100644
--- a/crates/mabo-lsp/src/handlers/mod.rs
+++ b/crates/mabo-lsp/src/handlers/mod.rs
@@ -160,6 +160,8 @@ pub fn initialized(state: &mut GlobalState<'_>, _params: InitializedParams) {
 pub fn did_open(state: &mut GlobalState<'_>, params: DidOpenTextDocumentParams) {
     debug!(uri:% = params.text_document.uri.as_str(); "schema opened");
 
+    state.open.insert(params.text_document.uri.clone());
+
     let text = params.text_document.text;
     let file = if let Some(file) = state
         .files
@@ -252,15 +254,17 @@ pub fn did_change(state: &mut GlobalState<'_>, mut params: DidChangeTextDocument
     state.files.insert(params.text_document.uri, file);
 }
 
-pub fn did_close(_state: &mut GlobalState<'_>, params: DidCloseTextDocumentParams) {
+pub fn did_close(state: &mut GlobalState<'_>, params: DidCloseTextDocumentParams) {
     debug!(uri:% = params.text_document.uri.as_str(); "schema closed");
+    state.open.remove(&params.text_document.uri);
 }
 
 pub fn did_delete(state: &mut GlobalState<'_>, params: DeleteFilesParams) {
     debug!(files:? = params.files; "files deleted");
-    state
-        .files
-        .retain(|uri, _| !params.files.iter().any(|file| file.uri == uri.as_str()));
+    // the content of open documents is managed by the editor, even if the file is gone
+    state.files.retain(|uri, _| {
+        state.open.contains(uri) || !params.files.iter().any(|file| file.uri == uri.as_str())
+    });
 }
 
 pub fn hover(state: &mut GlobalState<'_>, params: HoverParams) -> Result<Option<Hover>> {
diff --git a/crates/mabo-lsp/src/state.rs b/crates/mabo-lsp/src/state.rs
index 818e279..15e6b03 100644
--- a/crates/mabo-lsp/src/state.rs
+++ b/crates/mabo-lsp/src/state.rs
@@ -7,7 +7,7 @@ use lsp_types::{ConfigurationItem, Diagnostic, PositionEncodingKind, Uri};
 use mabo_parser::Schema;
 use ouroboros::self_referencing;
 use ropey::Rope;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 
 use crate::{client::Client, config, handlers::index::Index};
 
@@ -15,6 +15,8 @@ pub struct GlobalState<'a> {
     pub client: Client<'a>,
     pub encoding: PositionEncodingKind,
     pub files: FxHashMap<Uri, File>,
+    /// Documents that are currently open in the editor.
+    pub open: FxHashSet<Uri>,
     pub settings: config::Global,
 }
 
@@ -37,6 +39,7 @@ impl<'a> GlobalState<'a> {
             client: Client::new(connection),
             encoding: PositionEncodingKind::UTF16,
             files: FxHashMap::default(),
+            open: FxHashSet::default(),
             settings: config::Global::default(),
         }
     }
-- 
2.43.0


From df64687763c67991b41534dfa44add300d26ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 38/44] fix: process the files of a project in the same order
 everywhere

The order in which a directory lists its entries differs between equal
directories, and with it the file that errors are reported for first and
the last one written to an output path.
---
 crates/mabo-project/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/mabo-project/src/lib.rs b/crates/mabo-project/src/lib.rs
index 7f09d2c..fa404ef 100644
--- a/crates/mabo-project/src/lib.rs
+++ b/crates/mabo-project/src/lib.rs
@@ -10,7 +10,7 @@ use std::{
 };
 
 use globset::{GlobBuilder, GlobSetBuilder};
-use ignore::{Walk, WalkBuilder};
+use ignore::WalkBuilder;
 use serde::Deserialize;
 
 mod de;
@@ -124,7 +124,9 @@ pub fn discover(base: impl AsRef<Path>) -> Result<Vec<Project>> {
         })?
         .compile_matcher();
 
-    Walk::new(absolute(base.as_ref())?)
+    WalkBuilder::new(absolute(base.as_ref())?)
+        .sort_by_file_name(Ord::cmp)
+        .build()
         .filter_map(Result::ok)
         .filter(|f| f.file_type().is_some_and(|ty| ty.is_file()) && pattern.is_match(f.path()))
         .filter_map(|file| {
@@ -183,6 +185,7 @@ fn collect_files(base: &Path, patterns: &[String]) -> Result<Vec<PathBuf>> {
         .follow_links(true)
         .same_file_system(true)
         .skip_stdout(true)
+        .sort_by_file_name(Ord::cmp)
         .build();
 
     let patterns = patterns
-- 
2.43.0


From 651b10992bd4372fdd7f74289112b80514cf451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 39/44] fix: reject schema files of the same name instead of
 replacing the code of one by the other's

---
 crates/mabo-build/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index 7f4cc4e..e500e5a 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -32,6 +32,14 @@ pub enum Error {
     /// The file name wasn't valid UTF-8.
     #[error("the file name was not encoded in valid UTF-8")]
     NonUtf8FileName,
+    /// Two schema files have the same name, thus the code of one would replace the other's.
+    #[error("the schema files at {first:?} and {second:?} have the same name")]
+    DuplicateName {
+        /// The first file with the name.
+        first: PathBuf,
+        /// The other file with the same name.
+        second: PathBuf,
+    },
     /// Failed to create the output directory for generated Rust source files.
     #[error("failed creating output directory at {path:?}")]
     Create {
@@ -162,13 +170,23 @@ impl Compiler {
             inputs.push((path, input));
         }
 
-        for (path, input) in &inputs {
+        for (i, (path, input)) in inputs.iter().enumerate() {
             let stem = path
                 .file_stem()
                 .ok_or(Error::NoFileName)?
                 .to_str()
                 .ok_or(Error::NonUtf8FileName)?;
 
+            if let Some((first, _)) = inputs[..i]
+                .iter()
+                .find(|(other, _)| other.file_stem() == path.file_stem())
+            {
+                return Err(Error::DuplicateName {
+                    first: first.clone(),
+                    second: path.clone(),
+                });
+            }
+
             let schema = Schema::parse(input, Some(path)).map_err(|e| Error::Parse {
                 report: Report::new(e),
                 file: path.clone(),
-- 
2.43.0


From a02bbc43058ea5846a1ae0c4c7f9d841b7941f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:31 +0000
Subject: [PATCH 40/44] fix: report schema files of the same name instead of
 replacing the pages of one by the other's

---
 crates/mabo-cli/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mabo-cli/src/main.rs b/crates/mabo-cli/src/main.rs
index c8717ec..4da73fe 100644
--- a/crates/mabo-cli/src/main.rs
+++ b/crates/mabo-cli/src/main.rs
@@ -1,6 +1,7 @@
 //! Main command line interface for tooling support of Mabo schema files.
 
 use std::{
+    collections::HashSet,
     fs,
     path::{Path, PathBuf},
     process::ExitCode,
@@ -139,9 +140,16 @@ fn format_file(file: &Path) -> miette::Result<()> {
 
 fn doc(args: DocArgs) -> anyhow::Result<()> {
     let project = mabo_project::load(project_dir(args.project_dir)?)?;
+    let mut names = HashSet::new();
     let mut failed = false;
 
     for file in project.files {
+        if !names.insert(file.file_stem().map(ToOwned::to_owned)) {
+            eprintln!("failed documenting {file:?}: another schema file has the same name");
+            failed = true;
+            continue;
+        }
+
         if let Err(e) =
             doc_file(&file, &args.out_dir).with_context(|| format!("failed documenting {file:?}"))
         {
-- 
2.43.0


From 5ae62327cdfb524c77bce79725be56e5a6f603eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:01 +0000
Subject: [PATCH 41/44] fix: show the declaration of a wrongly imported
 definition in its own schema

---
 crates/mabo-compiler/src/resolve/error.rs |  8 ++++++-
 crates/mabo-compiler/src/resolve/mod.rs   | 28 +++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/crates/mabo-compiler/src/resolve/error.rs b/crates/mabo-compiler/src/resolve/error.rs
index 1d32dd7..ae138eb 100644
--- a/crates/mabo-compiler/src/resolve/error.rs
+++ b/crates/mabo-compiler/src/resolve/error.rs
@@ -197,7 +197,13 @@ pub enum ResolveImport {
     /// The referenced definition can't be used as type.
     #[error(transparent)]
     #[diagnostic(transparent)]
-    InvalidKind(#[from] InvalidKind),
+    InvalidKind(#[from] Box<RemoteInvalidKind>),
+}
+
+impl From<RemoteInvalidKind> for ResolveImport {
+    fn from(value: RemoteInvalidKind) -> Self {
+        Self::InvalidKind(value.into())
+    }
 }
 
 /// The referenced schema wasn't found in the list of available schemas.
diff --git a/crates/mabo-compiler/src/resolve/mod.rs b/crates/mabo-compiler/src/resolve/mod.rs
index 74661dd..104d669 100644
--- a/crates/mabo-compiler/src/resolve/mod.rs
+++ b/crates/mabo-compiler/src/resolve/mod.rs
@@ -204,16 +204,36 @@ impl Module<'_> {
                 })?;
 
             match definition.kind {
-                DeclarationKind::Alias => Err(InvalidKind {
+                DeclarationKind::Alias => Err(RemoteInvalidKind {
                     kind: "alias",
-                    declared: definition.name.span().into(),
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: "alias",
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
-                DeclarationKind::Const => Err(InvalidKind {
+                DeclarationKind::Const => Err(RemoteInvalidKind {
                     kind: "const",
-                    declared: definition.name.span().into(),
                     used: element.span().into(),
+                    declaration: [RemoteInvalidKindDeclaration {
+                        kind: "const",
+                        source_code: NamedSource::new(
+                            self.schema.path.as_ref().map_or_else(
+                                || "<unknown>".to_owned(),
+                                |p| p.display().to_string(),
+                            ),
+                            self.schema.source.to_owned(),
+                        ),
+                        used: definition.name.span().into(),
+                    }],
                 }
                 .into()),
                 DeclarationKind::Struct { generics } | DeclarationKind::Enum { generics } => {
-- 
2.43.0


From d6c3841c044b39db5ecd6e50bf6e7970c3d812b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:57 +0000
Subject: [PATCH 42/44] fix: write names that are Rust keywords as raw
 identifiers

---
 crates/mabo-build/src/decode.rs     | 22 +++++++++++-----------
 crates/mabo-build/src/definition.rs | 28 ++++++++++++++--------------
 crates/mabo-build/src/encode.rs     | 24 +++++++++---------------
 crates/mabo-build/src/lib.rs        | 12 ++++++++++++
 crates/mabo-build/src/size.rs       | 26 ++++++++++----------------
 5 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/crates/mabo-build/src/decode.rs b/crates/mabo-build/src/decode.rs
index 5003ea1..85e5a5a 100644
--- a/crates/mabo-build/src/decode.rs
+++ b/crates/mabo-build/src/decode.rs
@@ -1,10 +1,10 @@
 use mabo_compiler::simplify::{
     Enum, ExternalType, Field, FieldKind, Fields, Struct, Type, Variant,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::quote;
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -15,7 +15,7 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let field_vars = compile_field_vars(opts, &fields.fields);
     let field_matches = compile_field_matches(opts, fields);
@@ -60,7 +60,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -89,7 +89,7 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let field_vars = compile_field_vars(opts, &fields.fields);
     let field_matches = compile_field_matches(opts, fields);
     let field_assigns = compile_field_assigns(fields);
@@ -118,7 +118,7 @@ fn compile_variant(
 
 fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
     let vars = fields.iter().map(|field| {
-        let name = Ident::new(&field.name, Span::call_site());
+        let name = ident(&field.name);
         (name, &field.ty)
     });
 
@@ -138,7 +138,7 @@ fn compile_field_vars(opts: &Opts, fields: &[Field<'_>]) -> TokenStream {
 fn compile_field_matches(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
-        let name = proc_macro2::Ident::new(name, Span::call_site());
+        let name = ident(name);
         let ty = compile_data_type(opts, if let Type::Option(ty) = &ty { ty } else { ty }, true);
 
         quote! { #id => #name = Some(#ty?) }
@@ -155,7 +155,7 @@ fn compile_field_assigns(fields: &Fields<'_>) -> TokenStream {
         } else {
             quote! { None }
         };
-        let name = Ident::new(name, Span::call_site());
+        let name = ident(name);
         let id = proc_macro2::Literal::u32_unsuffixed(*id);
 
         if matches!(ty, Type::Option(_)) {
@@ -188,7 +188,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident(ty));
         let types2 = types.clone();
 
         (
@@ -295,8 +295,8 @@ fn compile_data_type(opts: &Opts, ty: &Type<'_>, root: bool) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
-            let ty = Ident::new(name, Span::call_site());
+            let path = path.iter().map(|part| ident(part));
+            let ty = ident(name);
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics
                     .iter()
diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 5096933..109fe28 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -2,11 +2,11 @@ use mabo_compiler::simplify::{
     Const, Definition, Enum, ExternalType, Field, FieldKind, Fields, Import, Literal, Module,
     Schema, Struct, Type, TypeAlias, Variant,
 };
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
 use super::{decode, encode, size};
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 /// Take a single schema and convert it into Rust source code.
 #[must_use]
@@ -66,7 +66,7 @@ fn compile_module(
     }: &Module<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let definitions = definitions.iter().map(|def| compile_definition(opts, def));
 
     quote! {
@@ -91,7 +91,7 @@ fn compile_struct(
     }: &Struct<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let generics = compile_generics(generics);
     let semicolon = (fields.kind != FieldKind::Named).then_some(quote! {;});
     let fields = compile_fields(opts, fields, true);
@@ -115,7 +115,7 @@ fn compile_enum(
     }: &Enum<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let generics = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -139,7 +139,7 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let fields = compile_fields(opts, fields, false);
 
     quote! {
@@ -159,7 +159,7 @@ fn compile_alias(
     }: &TypeAlias<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let generics = compile_generics(generics);
     let target = compile_data_type(opts, target);
 
@@ -180,7 +180,7 @@ fn compile_const(
     }: &Const<'_>,
 ) -> TokenStream {
     let comment = compile_comment(comment);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let ty = compile_const_data_type(ty);
     let value = compile_literal(value);
 
@@ -197,7 +197,7 @@ fn compile_import(
     }: &Import<'_>,
 ) -> TokenStream {
     let segments = segments.iter().enumerate().map(|(i, segment)| {
-        let segment = Ident::new(segment, Span::call_site());
+        let segment = ident(segment);
         if i > 0 {
             quote! {::#segment}
         } else {
@@ -205,7 +205,7 @@ fn compile_import(
         }
     });
     let element = element.as_ref().map(|element| {
-        let element = Ident::new(element, Span::call_site());
+        let element = ident(element);
         quote! { ::#element}
     });
 
@@ -222,7 +222,7 @@ fn compile_comment(lines: &[&str]) -> TokenStream {
 
 fn compile_generics(types: &[&str]) -> Option<TokenStream> {
     (!types.is_empty()).then(|| {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident(ty));
         quote! { <#(#types,)*> }
     })
 }
@@ -237,7 +237,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>, for_struct: bool) -> TokenSt
 
             if fields.kind == FieldKind::Named {
                 let comment = compile_comment(comment);
-                let name = Ident::new(name, Span::call_site());
+                let name = ident(name);
 
                 quote! {
                     #comment
@@ -340,8 +340,8 @@ pub(super) fn compile_data_type(opts: &Opts, ty: &Type<'_>) -> TokenStream {
             name,
             generics,
         }) => {
-            let path = path.iter().map(|part| Ident::new(part, Span::call_site()));
-            let name = Ident::new(name, Span::call_site());
+            let path = path.iter().map(|part| ident(part));
+            let name = ident(name);
             let generics = (!generics.is_empty()).then(|| {
                 let types = generics.iter().map(|ty| compile_data_type(opts, ty));
                 quote! { <#(#types,)*> }
diff --git a/crates/mabo-build/src/encode.rs b/crates/mabo-build/src/encode.rs
index 888e65f..13e76ea 100644
--- a/crates/mabo-build/src/encode.rs
+++ b/crates/mabo-build/src/encode.rs
@@ -1,8 +1,8 @@
 use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Variant};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -13,17 +13,14 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(|field| ident(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
         FieldKind::Unit => quote! {},
     };
 
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let fields = compile_fields(opts, fields);
 
@@ -54,7 +51,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -84,12 +81,9 @@ fn compile_variant(
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
     let id = quote! { ::mabo::VariantId::new(#id) };
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let fields_body = compile_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(|field| ident(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -118,7 +112,7 @@ fn compile_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident(name);
 
             if let Type::Option(ty) = &ty {
                 let (enc, ty) = compile_data_type(opts, ty, quote! { v }, true);
@@ -142,7 +136,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident(ty));
         let types2 = types.clone();
 
         (
diff --git a/crates/mabo-build/src/lib.rs b/crates/mabo-build/src/lib.rs
index e500e5a..805fa8b 100644
--- a/crates/mabo-build/src/lib.rs
+++ b/crates/mabo-build/src/lib.rs
@@ -4,6 +4,7 @@ use std::{env, fmt::Debug, fs, path::PathBuf};
 
 use mabo_parser::Schema;
 use miette::Report;
+use proc_macro2::{Ident, Span};
 use thiserror::Error;
 
 pub use self::definition::compile_schema;
@@ -236,6 +237,17 @@ impl Compiler {
     }
 }
 
+/// Turn a name from the schema into a Rust identifier, which is a raw one if the name is a keyword.
+fn ident(name: &str) -> Ident {
+    let raw = name == "gen" || syn::parse_str::<Ident>(name).is_err();
+
+    if raw && !matches!(name, "crate" | "self" | "super" | "Self") {
+        Ident::new_raw(name, Span::call_site())
+    } else {
+        Ident::new(name, Span::call_site())
+    }
+}
+
 fn init_miette() {
     miette::set_hook(Box::new(|_| {
         Box::new(
diff --git a/crates/mabo-build/src/size.rs b/crates/mabo-build/src/size.rs
index 769a299..39e90d2 100644
--- a/crates/mabo-build/src/size.rs
+++ b/crates/mabo-build/src/size.rs
@@ -1,8 +1,8 @@
 use mabo_compiler::simplify::{Enum, Field, FieldKind, Fields, Struct, Type, Variant};
-use proc_macro2::{Ident, Span, TokenStream};
+use proc_macro2::TokenStream;
 use quote::{ToTokens, quote};
 
-use crate::{BytesType, Opts};
+use crate::{BytesType, Opts, ident};
 
 pub(super) fn compile_struct(
     opts: &Opts,
@@ -13,17 +13,14 @@ pub(super) fn compile_struct(
         ..
     }: &Struct<'_>,
 ) -> TokenStream {
-    let names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let names = fields.fields.iter().map(|field| ident(&field.name));
     let names = match fields.kind {
         FieldKind::Named => quote! { {#(#names,)*} },
         FieldKind::Unnamed => quote! { (#(#names,)*) },
         FieldKind::Unit => quote! {},
     };
 
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let fields = compile_struct_fields(opts, fields);
 
@@ -51,7 +48,7 @@ fn compile_struct_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -80,7 +77,7 @@ pub(super) fn compile_enum(
         ..
     }: &Enum<'_>,
 ) -> TokenStream {
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let (generics, generics_where) = compile_generics(generics);
     let variants = variants.iter().map(|v| compile_variant(opts, v));
 
@@ -113,12 +110,9 @@ fn compile_variant(
     }: &Variant<'_>,
 ) -> TokenStream {
     let id = proc_macro2::Literal::u32_unsuffixed(*id);
-    let name = Ident::new(name, Span::call_site());
+    let name = ident(name);
     let fields_body = compile_variant_fields(opts, fields);
-    let field_names = fields
-        .fields
-        .iter()
-        .map(|field| Ident::new(&field.name, Span::call_site()));
+    let field_names = fields.fields.iter().map(|field| ident(&field.name));
 
     match fields.kind {
         FieldKind::Named => quote! {
@@ -147,7 +141,7 @@ fn compile_variant_fields(opts: &Opts, fields: &Fields<'_>) -> TokenStream {
     } else {
         let calls = fields.fields.iter().map(|Field { name, ty, id, .. }| {
             let id = proc_macro2::Literal::u32_unsuffixed(*id);
-            let name = proc_macro2::Ident::new(name, Span::call_site());
+            let name = ident(name);
 
             if let Type::Option(ty) = &ty {
                 let ty = compile_data_type(opts, ty, quote! { v });
@@ -171,7 +165,7 @@ fn compile_generics(types: &[&str]) -> (TokenStream, TokenStream) {
     if types.is_empty() {
         Default::default()
     } else {
-        let types = types.iter().map(|ty| Ident::new(ty, Span::call_site()));
+        let types = types.iter().map(|ty| ident(ty));
         let types2 = types.clone();
 
         (
-- 
2.43.0


From f6d3b199275e4d0fe5b85749cfa3f1c7aa713c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:19 +0000
Subject: [PATCH 43/44] fix: escape characters in comments that Rust rejects in
 doc comments

---
 crates/mabo-build/src/definition.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-build/src/definition.rs b/crates/mabo-build/src/definition.rs
index 109fe28..cdc3f1f 100644
--- a/crates/mabo-build/src/definition.rs
+++ b/crates/mabo-build/src/definition.rs
@@ -216,10 +216,26 @@ fn compile_import(
 }
 
 fn compile_comment(lines: &[&str]) -> TokenStream {
-    let lines = lines.iter().map(|line| format!(" {line}"));
+    let lines = lines
+        .iter()
+        .map(|line| format!(" {}", escape_comment(line)));
     quote! { #(#[doc = #lines])* }
 }
 
+/// Escape the characters that Rust rejects in doc comments, which are carriage returns and those
+/// that change the direction of the text.
+fn escape_comment(line: &str) -> String {
+    line.chars().fold(String::new(), |mut acc, c| {
+        match c {
+            '\r' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' => {
+                acc.extend(c.escape_default());
+            }
+            _ => acc.push(c),
+        }
+        acc
+    })
+}
+
 fn compile_generics(types: &[&str]) -> Option<TokenStream> {
     (!types.is_empty()).then(|| {
         let types = types.iter().map(|ty| ident(ty));
-- 
2.43.0


From c68ca27958aefb6e4a3ebe4055f34bc7976cd0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:54 +0000
Subject: [PATCH 44/44] fix: escape characters in comments that are illegal in
 Go source code

---
 crates/mabo-go/src/definition.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/mabo-go/src/definition.rs b/crates/mabo-go/src/definition.rs
index 4e16d71..2da00fa 100644
--- a/crates/mabo-go/src/definition.rs
+++ b/crates/mabo-go/src/definition.rs
@@ -430,7 +430,15 @@ impl Display for RenderComment<'_> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let Self { indent, comment } = *self;
         for line in comment {
-            writeln!(f, "{indent}// {line}")?;
+            write!(f, "{indent}// ")?;
+            for c in line.chars() {
+                match c {
+                    // Not allowed anywhere in Go source code.
+                    '\0' | '\u{feff}' => write!(f, "{}", c.escape_unicode())?,
+                    _ => f.write_char(c)?,
+                }
+            }
+            writeln!(f)?;
         }
 
         Ok(())
-- 
2.43.0

