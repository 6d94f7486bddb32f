From 428a90e4316f12b6302d175bc2c18a0d9fd0a4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 01/41] fix: emit z.boolean() for bool (zod has no z.bool)

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 4c7065690582728b54c079131df59c457b4527c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 02/41] fix: floats must be finite, JSON turns Infinity into
 null

---
 core/src/build_ins.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..8714d6b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -140,8 +140,8 @@ impl_primitive!(
 impl_primitive!("number", i128, "z.number().finite().int().lte(170141183460469231731687303715884105727).gte(-170141183460469231731687303715884105728)");
 impl_primitive!("number", isize, "z.number().finite().int()");
 
-impl_primitive!("number", f32, "z.number()");
-impl_primitive!("number", f64, "z.number()");
+impl_primitive!("number", f32, "z.number().finite()");
+impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
@@ -287,10 +287,10 @@ impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f32>, "z.number()");
+impl_primitive!("number", ordered_float::NotNan<f32>, "z.number().finite()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f64>, "z.number()");
+impl_primitive!("number", ordered_float::NotNan<f64>, "z.number().finite()");
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From e59d4053cfd056340e0ece3f7fd04d74ef7f2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 03/41] fix: accept every unicode scalar value as char

---
 core/src/build_ins.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 8714d6b..4a92d95 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -144,7 +144,8 @@ impl_primitive!("number", f32, "z.number().finite()");
 impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+// exactly one unicode scalar value, `length` would count UTF-16 code units
+impl_primitive!("string", char, "z.string().regex(/^[^\\ud800-\\udfff]$/u)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 6ca8a799388bd53b033f53f14873ca4eef0041bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 04/41] fix: enforce the length of fixed size arrays

---
 core/src/build_ins.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 4a92d95..89550b6 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -166,7 +166,20 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
-impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
+impl<T: ZodType, const N: usize> ZodType for [T; N] {
+    /// shadows impl for [Vec](#impl-ZodType-for-Vec&lt;T&gt;)
+    fn type_def() -> TsTypeDef {
+        <Vec<T>>::type_def()
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.array(z.lazy(() => T)).length(N)
+    /// ```
+    fn schema() -> String {
+        format!("{}.length({})", <Vec<T>>::schema(), N)
+    }
+}
 
 impl<T: ZodType> ZodType for Vec<T> {
     /// ```ts
-- 
2.43.0


From eb377a31da1882e626b14bbe37fed78797e4bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 05/41] fix: containers refer to named types instead of
 expanding them

Recursive types behind a Box, Vec, tuple etc. overflowed the stack.
---
 core/src/build_ins.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 89550b6..2bb4ead 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,14 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
+
         }
     };
 }
@@ -187,7 +196,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -205,7 +214,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -223,7 +232,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -242,7 +251,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -262,8 +271,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From b5cb4c3dc3f4e69c9523274019d1cf89f32640d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:08 +0000
Subject: [PATCH 06/41] fix: PhantomData is null on the wire

---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index 2bb4ead..15efe1b 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -170,7 +170,7 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
+impl_shadow!("unit", "()", (); impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
-- 
2.43.0


From ac3c7a9b774a203f2747f1d957fff239211193ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 07/41] fix: tuple and flattened structs are type aliases, not
 interfaces

`export interface T [A, B]` and `export interface T {..} & U` are syntax
errors in typescript.
---
 derive/src/impl_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..e2cebff 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -123,9 +123,11 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            // only plain object types can be declared as an interface
+            let flattened = self.fields.iter().any(|f| f.flatten);
+            let interface_or_type = match (self.style, self.transparent, flattened) {
+                (Style::Struct, false, false) => quote!(Interface),
+                _ => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From add2d79a534eb4a65fdd11eb26a5268c2fe5ca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 08/41] fix: quote keys that are not identifiers and escape
 names in literals

---
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  5 +--
 .../src/impl_enum/variant/struct_variant.rs   | 21 ++++++++----
 derive/src/impl_enum/variant/tuple_variant.rs | 17 ++++++----
 derive/src/impl_enum/variant/unit_variant.rs  | 21 +++++++-----
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/js.rs                              | 33 +++++++++++++++++++
 derive/src/lib.rs                             |  1 +
 8 files changed, 82 insertions(+), 26 deletions(-)
 create mode 100644 derive/src/js.rs

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..4305334 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, js};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -30,7 +30,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: js::object_key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..65c1f58 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, js};
 use variant::Variant;
 
 use super::args;
@@ -161,9 +161,10 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = js::string_literal(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
-                            format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
+                            format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
                     TagType::None => {
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..1002397 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::js;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -35,16 +36,20 @@ impl<'a> StructVariant<'a> {
 
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let key = js::object_key(&name);
+        let name = js::string_literal(&name);
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #key, #inner) }
             }
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
+                let tag = js::object_key(tag);
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
+                let (tag, content) = (js::object_key(tag), js::object_key(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
@@ -56,6 +61,8 @@ impl<'a> StructVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let key = js::object_key(&name);
+        let name = js::string_literal(&name);
 
         let inner = match expanded_fields.len() {
             0 => unreachable!("Empty tuple structs are handled by darling"),
@@ -77,16 +84,18 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #key, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                let tag = js::object_key(tag);
+                quote_spanned! {span =>  format!("{{ {}: {}, {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                let (tag, content) = (js::object_key(tag), js::object_key(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..1335325 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::js;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -43,15 +44,17 @@ impl<'a> TupleVariant<'a> {
                 }
             }
         };
-        let name = &self.name;
+        let key = js::object_key(&self.name);
+        let name = js::string_literal(&self.name);
         let span = self.span;
 
         match self.tag {
             TagType::External | TagType::Internal { .. } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #key, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
+                let (tag, content) = (js::object_key(tag), js::object_key(content));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  String::from(#inner) }
@@ -63,7 +66,8 @@ impl<'a> TupleVariant<'a> {
         let expanded_fields = self.fields.expand_type_defs();
         let span = self.span;
         let tag_type = self.tag;
-        let name = &self.name;
+        let key = js::object_key(&self.name);
+        let name = js::string_literal(&self.name);
 
         let inner = match expanded_fields.len() {
             // may occur if fields are skipped. In this case we handle it like a unit variant
@@ -92,10 +96,11 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External | TagType::Internal { .. } => {
-                quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {} }}", #key, #inner) }
             }
             TagType::Adjacent { tag, content } => {
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
+                let (tag, content) = (js::object_key(tag), js::object_key(content));
+                quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
                 quote_spanned! {span =>  #inner }
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..c58ef2b 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::js;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,16 +13,18 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let name = js::string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
+                quote_spanned!(self.span => format!("z.literal({})", #name))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = js::object_key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
+                let tag = js::object_key(tag);
+                quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #name))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("z.null()"))
@@ -31,16 +34,18 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let name = js::string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => format!("\"{}\"", #name))
+                quote_spanned!(self.span => String::from(#name))
             }
             TagType::Internal { tag } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = js::object_key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
-                quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
+                let tag = js::object_key(tag);
+                quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #name))
             }
             TagType::None => {
                 quote_spanned!(self.span => String::from("null"))
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index e2cebff..126390e 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, js};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -38,7 +38,9 @@ pub fn expand(
         .filter(|(_, attrs)| !attrs.skip_deserializing())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| js::object_key(&attrs.name().deserialize_name())),
             optional: !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/js.rs b/derive/src/js.rs
new file mode 100644
index 0000000..0516213
--- /dev/null
+++ b/derive/src/js.rs
@@ -0,0 +1,33 @@
+//! helpers for emitting names as javascript source
+
+/// a string literal, e.g. `hello "world"` -> `"hello \"world\""`
+pub fn string_literal(value: &str) -> String {
+    let mut out = String::with_capacity(value.len() + 2);
+    out.push('"');
+    for c in value.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            c if c.is_control() || c == '\u{2028}' || c == '\u{2029}' => {
+                out.push_str(&format!("\\u{:04x}", c as u32))
+            }
+            c => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
+/// the key of an object literal / type, quoted only if it has to be
+pub fn object_key(name: &str) -> String {
+    let is_ident = name
+        .chars()
+        .enumerate()
+        .all(|(i, c)| c == '_' || c.is_ascii_alphabetic() || (i > 0 && c.is_ascii_digit()));
+
+    if is_ident && !name.is_empty() {
+        name.to_owned()
+    } else {
+        string_literal(name)
+    }
+}
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..c1975dd 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod js;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
-- 
2.43.0


From 26db4a19baca9f48c2538a7a8d645aca55a2af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 09/41] fix: skipped fields do not turn tuples into newtypes

---
 derive/src/impl_enum/variant/mod.rs           |  1 +
 derive/src/impl_enum/variant/tuple_variant.rs | 14 ++++++-----
 derive/src/impl_struct.rs                     | 25 +++++++++++--------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..e22da8e 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -37,6 +37,7 @@ impl<'a> Variant<'a> {
                 span,
                 tag,
                 name,
+                newtype: variant.fields.len() == 1,
                 fields,
             }),
             Style::Struct => Self::Struct(StructVariant {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 1335325..78e66a2 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -12,13 +12,15 @@ pub struct TupleVariant<'a> {
     pub span: Span,
     pub tag: &'a TagType,
     pub name: String,
+    /// exactly one field is declared
+    pub newtype: bool,
     pub fields: field::VariantFields<'a>,
 }
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
+        let inner = match (self.newtype, self.fields.len()) {
+            (true, 0) => {
                 // may occur if fields are skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
@@ -27,7 +29,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            (true, 1) => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -69,9 +71,9 @@ impl<'a> TupleVariant<'a> {
         let key = js::object_key(&self.name);
         let name = js::string_literal(&self.name);
 
-        let inner = match expanded_fields.len() {
+        let inner = match (self.newtype, expanded_fields.len()) {
             // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+            (true, 0) => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -79,7 +81,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            (true, 1) => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 126390e..7a34774 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -25,17 +25,20 @@ pub fn expand(
     let name = serde_ast.attrs.name().deserialize_name();
     let ns_path = input.namespace;
 
-    let fields_ast = match serde_ast.data {
+    let (serde_style, fields_ast) = match serde_ast.data {
         ast::Data::Enum(_) => unreachable!(),
-        ast::Data::Struct(_, fields) => fields,
+        ast::Data::Struct(style, fields) => (style, fields),
     };
 
     let style = fields.style;
+    // the arity of a tuple is the number of declared fields, even if some of them are skipped
+    let newtype = matches!(serde_style, ast::Style::Newtype);
 
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
-        .filter(|(_, attrs)| !attrs.skip_deserializing())
+        // serde ignores skip on newtypes
+        .filter(|(_, attrs)| newtype || !attrs.skip_deserializing())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident
@@ -61,6 +64,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        newtype,
         from_ty,
     };
 
@@ -75,6 +79,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -179,15 +184,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_type_defs(),
-                _ => {
+                false => {
                     let fields = fields.into_iter().map(|f| f.expand_type_defs());
 
                     quote! {
@@ -222,15 +226,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_schema(),
-                _ => {
+                false => {
                     // make sure all fields followed an optional field are also optional
                     if let Some(f) = fields
                         .iter()
-- 
2.43.0


From 2170478e8c7c21f5c3187afb3027d4cab606ec6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 10/41] fix: struct variants without fields are empty objects

---
 derive/src/impl_enum/variant/struct_variant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 1002397..68a5ddb 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -17,7 +17,8 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // declared without fields or all of them are skipped
+            0 => quote!(""),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -65,7 +66,8 @@ impl<'a> StructVariant<'a> {
         let name = js::string_literal(&name);
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // declared without fields or all of them are skipped
+            0 => quote!(""),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
-- 
2.43.0


From a54bcb78b6318ef68913395996d7cb422ff69de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 11/41] fix: container level serde default makes fields
 optional

---
 derive/src/impl_struct.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 7a34774..86e0999 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -30,6 +30,9 @@ pub fn expand(
         ast::Data::Struct(style, fields) => (style, fields),
     };
 
+    // `#[serde(default)]` on the container makes every field optional
+    let all_optional = !serde_ast.attrs.default().is_none();
+
     let style = fields.style;
     // the arity of a tuple is the number of declared fields, even if some of them are skipped
     let newtype = matches!(serde_style, ast::Style::Newtype);
@@ -44,7 +47,7 @@ pub fn expand(
             name: ident
                 .as_ref()
                 .map(|_| js::object_key(&attrs.name().deserialize_name())),
-            optional: !attrs.default().is_none(),
+            optional: (all_optional || !attrs.default().is_none()) && !attrs.skip_deserializing(),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From 3ad8509189b7073d9ebc0c9f7a3af4f805c05b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 12/41] fix: transparent structs are represented by the field
 serde picks

---
 derive/src/impl_struct.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 86e0999..2a5ec1f 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -42,6 +42,7 @@ pub fn expand(
         .zip(fields_ast.iter().map(|f| &f.attrs))
         // serde ignores skip on newtypes
         .filter(|(_, attrs)| newtype || !attrs.skip_deserializing())
+        .filter(|(_, attrs)| !transparent || attrs.transparent())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident
-- 
2.43.0


From 271ed23f1f540960cd708b5ab5b64b441d366b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 13/41] fix: internally tagged newtype variants carry their tag

---
 derive/src/impl_enum/mod.rs                   |  6 ++++--
 derive/src/impl_enum/variant/mod.rs           | 13 ++++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs | 13 +++++++++++--
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 65c1f58..92ea19a 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -160,14 +160,16 @@ impl<'a> Enum<'a> {
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
-                    TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                    TagType::Internal { tag } | TagType::Adjacent { tag, .. }
+                        if self.variants.iter().all(|v| v.is_discriminable()) =>
+                    {
                         let tag = js::string_literal(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
-                    TagType::None => {
+                    _ => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.union([{}])", variants.join(", "))
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index e22da8e..5ea1ac8 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -10,7 +10,7 @@ use super::args;
 use super::field;
 use darling::ast::Style;
 use proc_macro2::TokenStream;
-use serde_derive_internals::ast;
+use serde_derive_internals::{ast, attr::TagType};
 
 /// represents a single enum variant
 pub enum Variant<'a> {
@@ -49,6 +49,17 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// zod can only discriminate between plain objects. Internally tagged newtypes are
+    /// intersections
+    pub fn is_discriminable(&self) -> bool {
+        match self {
+            Variant::Tuple(TupleVariant { tag, fields, .. }) => {
+                !matches!(tag, TagType::Internal { .. }) || fields.len() == 0
+            }
+            _ => true,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 78e66a2..4dab8f5 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -51,9 +51,14 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #key, #inner) }
             }
+            // the fields of the inner type live next to the tag
+            TagType::Internal { tag } => {
+                let tag = js::object_key(tag);
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}) }}).and({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, content) = (js::object_key(tag), js::object_key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #name, #content, #inner) }
@@ -97,9 +102,13 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #key, #inner) }
             }
+            TagType::Internal { tag } => {
+                let tag = js::object_key(tag);
+                quote_spanned! {span =>  format!("{{ {}: {} }} & {}", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, content) = (js::object_key(tag), js::object_key(content));
                 quote_spanned! {span =>  format!("{{ {}: {}, {}: {} }}", #tag, #name, #content, #inner) }
-- 
2.43.0


From 7a8dd437854e0741cd574caba2fe120223558f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 14/41] fix: methods without arguments accept the empty
 argument list

---
 derive/src/rpc/impl_rpc.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..e772635 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,11 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    // clients always send an array, `()` would only accept null
+    if item.arg_types.is_empty() {
+        return quote!(#ident { args: [(); 0] });
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From 407f44d1bd626f113ebf82441c9fd579684a7ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 15/41] fix: route requests by the declared name of the
 namespace

---
 derive/src/rpc/backend_impl.rs | 50 ++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 5 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..0859524 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -12,7 +12,7 @@ pub fn expand(input: BackendInput, fields: Fields<BackendField>) -> TokenStream
     let req_ident = format_ident!("{}Req", ident);
 
     let backend_impl = expand_backend_impl(&ident, &req_ident, &fields);
-    let req_enum = expand_req_enum(&req_ident, &fields);
+    let req_enum = expand_req_enum(&ident, &req_ident, &fields);
     let req_enum_impl = expand_req_enum_impl(&ident, &req_ident, &fields);
 
     quote! {
@@ -53,7 +53,7 @@ fn expand_backend_impl(
             ) {
                 match req {
                     #__private::Request::Exec { id, value } => {
-                        match #__private::serde_json::from_value::<#req_ident>(value) {
+                        match #req_ident::from_value(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
                                     subscribers.insert(id, jh);
@@ -77,20 +77,60 @@ fn expand_backend_impl(
     }
 }
 
-pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
+pub fn expand_req_enum(
+    backend_ident: &Ident,
+    ident: &Ident,
+    fields: &Fields<BackendField>,
+) -> TokenStream {
+    let zod = get_zod();
     let __private = get_private();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
+    let from_value = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned! { ty.span() =>
+            if name == <#ty as #zod::Namespace>::NAME {
+                return #__private::serde_json::from_value(value).map(Self::#variant_ident);
+            }
+        }
+    });
+
     quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        impl #ident {
+            // namespaces are identified by their (possibly renamed) name
+            fn from_value(
+                value: #__private::serde_json::Value,
+            ) -> ::std::result::Result<Self, #__private::serde_json::Error> {
+                use #__private::serde::de::Error;
+
+                let name = match value.get("namespace") {
+                    ::std::option::Option::Some(#__private::serde_json::Value::String(name)) => name.as_str(),
+                    ::std::option::Option::Some(_) => {
+                        return ::std::result::Result::Err(Error::custom("namespace is not a string"))
+                    }
+                    ::std::option::Option::None => {
+                        return ::std::result::Result::Err(Error::missing_field("namespace"))
+                    }
+                };
+
+                #(#from_value)*
+
+                ::std::result::Result::Err(Error::unknown_variant(
+                    name,
+                    <#backend_ident as #__private::server::Backend>::NS_NAMES,
+                ))
+            }
+        }
     }
 }
 
-- 
2.43.0


From 7d81721cd53510180b1da71926317db5d400de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 16/41] fix: a disconnected client does not bring down the
 backend

---
 derive/src/rpc/impl_rpc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index e772635..3170e39 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -173,9 +173,12 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        // the client may have disconnected in the meantime
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From 1b5699231127bd8bb5d693b1e628dc3cf389c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 17/41] fix: streams belong to the connection that opened them

---
 src/rpc/servers/proxy.rs | 63 ++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..fa8247e 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -3,11 +3,31 @@ use futures::{
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
+};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+/// request ids are only unique per connection
+type ConnectionId = usize;
+
+type Message = (
+    ConnectionId,
+    Result<Request, Response>,
+    UnboundedSender<Response>,
+);
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: UnboundedSender<Message>,
+    next_connection: Arc<AtomicUsize>,
 }
 
 impl BackendProxy {
@@ -15,13 +35,21 @@ impl BackendProxy {
     where
         T: Backend + Send + 'static,
     {
-        let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        let (tx, mut rx) = unbounded::<Message>();
+        let mut subscribers = HashMap::<ConnectionId, SubscriberMap>::new();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
+            while let Some((connection, result, mut res)) = rx.next().await {
                 match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
+                    Ok(req) => {
+                        let subs = subscribers.entry(connection).or_default();
+                        backend.handle_request(req, res, subs).await;
+                        // forget about streams that have ended
+                        subs.retain(|_, jh| !jh.is_finished());
+                        if subs.is_empty() {
+                            subscribers.remove(&connection);
+                        }
+                    }
                     Err(err) => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
@@ -31,11 +59,15 @@ impl BackendProxy {
             }
         });
 
-        Self { tx }
+        Self {
+            tx,
+            next_connection: Default::default(),
+        }
     }
     pub fn connect(&self) -> ProxyConnection {
         let (res_tx, res_rx) = unbounded();
         ProxyConnection {
+            id: self.next_connection.fetch_add(1, Ordering::Relaxed),
             tx: self.tx.clone(),
             res_tx,
             res_rx,
@@ -44,27 +76,34 @@ impl BackendProxy {
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: ConnectionId,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            id,
+            tx,
+            res_tx,
+            res_rx,
+        } = self;
+        (ProxyTx { id, tx, res_tx }, ProxyRx { res_rx })
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    id: ConnectionId,
+    tx: UnboundedSender<Message>,
     res_tx: UnboundedSender<Response>,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send((self.id, req, self.res_tx.clone()))
             .map_err(|_| ClientError::Disconnected)
     }
 }
-- 
2.43.0


From 8f31e0556e10af6535b65b6cdc1effe51cb55504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 18/41] fix: raw identifiers and reserved words in the names of
 service members

---
 derive/src/js.rs           | 67 ++++++++++++++++++++++++++++++++++++++
 derive/src/rpc/args.rs     |  5 +--
 derive/src/rpc/impl_rpc.rs |  4 +--
 3 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/derive/src/js.rs b/derive/src/js.rs
index 0516213..68055c2 100644
--- a/derive/src/js.rs
+++ b/derive/src/js.rs
@@ -31,3 +31,70 @@ pub fn object_key(name: &str) -> String {
         string_literal(name)
     }
 }
+
+/// names that can not be used as a parameter of a generated function, because they are reserved or
+/// would hide something the function needs
+#[cfg(feature = "rpc")]
+const RESERVED_PARAMETERS: &[&str] = &[
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "request",
+    "return",
+    "static",
+    "subscribe",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "undefined",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+/// the name of a function parameter, e.g. `new` -> `new$`
+#[cfg(feature = "rpc")]
+pub fn parameter(name: &str) -> String {
+    if RESERVED_PARAMETERS.contains(&name) {
+        format!("{name}$")
+    } else {
+        name.to_owned()
+    }
+}
diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..1a836d6 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,8 @@
+use crate::js;
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -121,7 +122,7 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => js::parameter(&ident.ident.unraw().to_string()),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 3170e39..278e8ae 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From 90bd1d6163a73d15a54c20177edfc155f49ca30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:08 +0000
Subject: [PATCH 19/41] fix: documentation can not end the comment it is
 carried in

---
 derive/src/docs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..69ba830 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -42,7 +42,8 @@ impl ToTokens for RustDocs {
                 let docs = format!(
                     "/**\n{}*/\n",
                     docs.lines()
-                        .map(|line| format!("* {}\n", line))
+                        // the text must not end the comment
+                        .map(|line| format!("* {}\n", line.replace("*/", "*\\/")))
                         .collect::<String>()
                 );
                 tokens.extend(quote!(#docs))
-- 
2.43.0


From 3ef9622197ee2498d0c105a794b39798743e3e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 20/41] fix: refuse two types exported under the same name in
 one namespace

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 11 ++++++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 92ea19a..ce3ef70 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,7 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 2a5ec1f..a49e6ea 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -96,7 +96,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index c1975dd..1663281 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -177,8 +177,17 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
 }
 
 /// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+fn expand_type_registration(
+    ident: &Ident,
+    ns_path: &Path,
+    name: &str,
+) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
+    // types are exported under their (possibly renamed) name
+    let ident = match syn::parse_str::<Ident>(name) {
+        Ok(exported) => Ident::new(&exported.to_string(), ident.span()),
+        Err(_) => ident.clone(),
+    };
 
     quote_spanned! {ident.span() =>
         impl #register_path {
-- 
2.43.0


From 5758a863e9f5ba1b01edba8ff9ed61a6d5208512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 21/41] fix: client keeps calls until a connection is open and
 ignores connections it replaced

---
 src/rpc/clients/static/websocket_client.ts | 51 +++++++++++-----------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..64f8717 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -7,7 +7,8 @@ const reopenTimeouts = [100, 200, 1000, 3000];
 function websocketStore(url: string) {
   let initialValue: unknown = undefined;
   let socket: WebSocket | undefined;
-  let openPromise: Promise<undefined> | undefined;
+  // messages waiting for the connection to be established
+  const pending: string[] = [];
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
@@ -39,21 +40,22 @@ function websocketStore(url: string) {
     }
   }
 
-  async function open(): Promise<undefined> {
+  function open() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
       reopenTimeoutHandler = undefined;
     }
 
     // we are still in the opening phase
-    if (openPromise) {
-      return openPromise;
+    if (socket && socket.readyState === WebSocket.CONNECTING) {
+      return;
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const ws = new WebSocket(url);
+    socket = ws;
 
-    socket.onmessage = (event) => {
+    ws.onmessage = (event) => {
       const res = JSON.parse(event.data);
       console.trace({ response: res });
 
@@ -71,36 +73,33 @@ function websocketStore(url: string) {
       }
     };
 
-    socket.onclose = (event: Event) => {
+    ws.onclose = (event: Event) => {
+      // we closed or replaced this connection ourselves
+      if (socket !== ws) {
+        return;
+      }
+
       if (subscriptions.size > 0) {
         console.warn(event);
       }
       reopen();
     };
 
-    openPromise = new Promise((resolve, reject) => {
-      if (!socket) {
-        openPromise = undefined;
-        return;
-      }
+    ws.onerror = (error) => {
+      console.warn(error);
+    };
 
-      socket.onerror = (error) => {
-        reject(error);
-        openPromise = undefined;
-      };
-      socket.onopen = (_: Event) => {
-        reopenCount = 0;
-        resolve(undefined);
-        openPromise = undefined;
-      };
-    });
-    return openPromise;
+    ws.onopen = (_: Event) => {
+      reopenCount = 0;
+      pending.splice(0).forEach((value) => ws.send(value));
+    };
   }
 
   const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      pending.push(value);
+      open();
+    } else {
       socket.send(value);
     }
   };
-- 
2.43.0


From bb21094cf88de54d9a5c01f8b1bcbec208ffa2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 22/41] fix: client encodes sets and maps in arguments

---
 src/rpc/clients/static/websocket_client.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 64f8717..210c900 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -139,7 +139,21 @@ function execute({
   method: string;
   args: any[];
 }): string {
-  return JSON.stringify({ exec: { id: req_id, method, namespace, args } });
+  return JSON.stringify(
+    { exec: { id: req_id, method, namespace, args } },
+    encode_collections
+  );
+}
+
+// serde represents sets as arrays and maps as objects
+function encode_collections(_: string, value: unknown): unknown {
+  if (value instanceof Set) {
+    return [...value];
+  }
+  if (value instanceof Map) {
+    return Object.fromEntries(value);
+  }
+  return value;
 }
 
 export function subscribe<T>(
-- 
2.43.0


From 35aa43f98d8b00e03d0e440bd2854e0f9ee129e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 23/41] fix: backends over namespaces whose types have the same
 name

---
 derive/src/rpc/backend_impl.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 0859524..e5e35bc 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -1,6 +1,6 @@
 use darling::ast::Fields;
 use proc_macro2::TokenStream;
-use syn::{parse_quote, spanned::Spanned, Ident, Path};
+use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
 use crate::{get_private, get_zod};
@@ -84,14 +84,14 @@ pub fn expand_req_enum(
 ) -> TokenStream {
     let zod = get_zod();
     let __private = get_private();
-    let req_variants = fields.iter().map(|f| {
+    let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
-    let from_value = fields.iter().map(|f| {
+    let from_value = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned! { ty.span() =>
             if name == <#ty as #zod::Namespace>::NAME {
                 return #__private::serde_json::from_value(value).map(Self::#variant_ident);
@@ -143,7 +143,7 @@ pub fn expand_req_enum_impl(
 
     let req_call_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         let field_or_index = f.ident.clone().map(|ident| quote!(#ident)).unwrap_or_else(|| {
             let index = syn::Index::from(index);
             quote!(#index)
@@ -169,7 +169,7 @@ pub fn expand_req_enum_impl(
     }
 }
 
-fn variant_ident_from_ty(ty: &syn::Type) -> Ident {
-    let p: Path = parse_quote!(#ty);
-    p.segments.last().expect("one segment").ident.clone()
+/// namespaces declared in different modules may have the same type name
+fn variant_ident(index: usize) -> Ident {
+    format_ident!("Namespace{}", index)
 }
-- 
2.43.0


From 6d3cb78432dc7626e560d06445cb4327874e48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 24/41] fix: attributes of other derives next to Zod and
 Namespace may have any syntax

---
 derive/src/docs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 69ba830..91c1840 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -10,9 +10,10 @@ pub struct RustDocs {
 impl RustDocs {
     pub fn from_attrs(attrs: &[syn::Attribute]) -> Result<Self, syn::Error> {
         let mut full_docs = String::new();
-        for attr in attrs {
+        // the attributes of others do not have to look like ours
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("doc")) {
             match attr.parse_meta()? {
-                Meta::NameValue(nv) if nv.path.is_ident("doc") => {
+                Meta::NameValue(nv) => {
                     if let Lit::Str(doc) = nv.lit {
                         let doc = doc.value();
                         let doc_str = doc.trim();
-- 
2.43.0


From 589ca6fbd23aa28a38b4665026f43cad1e0923c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 25/41] fix: namespaces with raw identifiers are named without
 r#

---
 derive/src/impl_namespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..5cc3d7d 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,13 @@
 use crate::{args, format_ident_for_registration, get_zod};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
-- 
2.43.0


From 8c7899e704ee65715b78b33490e0dfa097cbfa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 26/41] fix: types renamed to something that is no Rust
 identifier do not collide

---
 derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 1663281..cfe39e9 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -186,7 +186,12 @@ fn expand_type_registration(
     // types are exported under their (possibly renamed) name
     let ident = match syn::parse_str::<Ident>(name) {
         Ok(exported) => Ident::new(&exported.to_string(), ident.span()),
-        Err(_) => ident.clone(),
+        // e.g. keywords or names with a `$`
+        Err(_) => name
+            .chars()
+            .fold(format_ident!("__Zod", span = ident.span()), |acc, c| {
+                format_ident!("{}_{:x}", acc, c as u32)
+            }),
     };
 
     quote_spanned! {ident.span() =>
-- 
2.43.0


From fb6a58f63b3de67655dfbc21626a893469601a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 27/41] fix: documentation of the first type in a namespace is
 attached to its schema

---
 core/src/rpc/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index fa4bed7..4a2b5a7 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -146,7 +146,7 @@ pub trait Backend {
         let mut code = T::get();
 
         for (ns, ns_code) in records.into_iter() {
-            write!(code, "export namespace {} {{ {} }}", ns, ns_code).expect("write failed");
+            write!(code, "export namespace {} {{\n{} }}", ns, ns_code).expect("write failed");
         }
         code
     }
-- 
2.43.0


From f64a2e2ed9eb419580d0e68555b7672aac895088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:46 +0000
Subject: [PATCH 28/41] fix: a stream whose id is reused by its connection is
 stopped

---
 derive/src/rpc/backend_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index e5e35bc..e05a019 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,10 @@ fn expand_backend_impl(
                         match #req_ident::from_value(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    // a stream whose id is reused is no longer reachable
+                                    if let Some(previous) = subscribers.insert(id, jh) {
+                                        previous.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From 411c3d08c5ad2dad29152164fec912033c41e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 29/41] fix: streams that are always ready can be cancelled

---
 derive/src/rpc/impl_rpc.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 278e8ae..cd994f2 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -202,6 +202,8 @@ pub fn expand_req_variant_impl_stream(
                                 #__private::tracing::warn!(?err, "Failed to emit event");
                                 break;
                             }
+                            // a stream that is always ready must not keep the task from being aborted
+                            #__private::tokio::task::yield_now().await;
                         }
                 }
 
-- 
2.43.0


From acfbe2d924c402e7d569b25612b510278d9e7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 30/41] fix: client subscribers that come while a frame is
 delivered do not get it

---
 src/rpc/clients/static/websocket_client.ts | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 210c900..78d12bd 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -14,6 +14,15 @@ function websocketStore(url: string) {
 
   const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
 
+  // subscribers may come and go while the others are called
+  function notify(value: unknown) {
+    [...subscriptions].forEach((subscription) => {
+      if (subscriptions.has(subscription)) {
+        subscription(value as any);
+      }
+    });
+  }
+
   function reopenTimeout() {
     const n = reopenCount;
     reopenCount++;
@@ -62,14 +71,10 @@ function websocketStore(url: string) {
       // TODO
       if ("method" in res) {
         initialValue = [res.method.id, res.method.data];
-        subscriptions.forEach((subscription) =>
-          subscription(initialValue as any)
-        );
+        notify(initialValue);
       } else if ("stream" in res) {
         initialValue = [res.stream.id, res.stream.data];
-        subscriptions.forEach((subscription) =>
-          subscription(initialValue as any)
-        );
+        notify(initialValue);
       }
     };
 
-- 
2.43.0


From 9d21f662851f42acbaa22d29db219a33c55d8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 31/41] fix: a client subscriber that throws does not keep
 frames from the others

---
 src/rpc/clients/static/websocket_client.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 78d12bd..db8ba6a 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -18,7 +18,11 @@ function websocketStore(url: string) {
   function notify(value: unknown) {
     [...subscriptions].forEach((subscription) => {
       if (subscriptions.has(subscription)) {
-        subscription(value as any);
+        try {
+          subscription(value as any);
+        } catch (error) {
+          console.error(error);
+        }
       }
     });
   }
-- 
2.43.0


From abce7fd42db4e96935ae47e6593ddd08e5f7caa8 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 32/41] fix: generated items of services do not hide types of
 the user

---
 derive/src/rpc/args.rs         | 3 ++-
 derive/src/rpc/backend_impl.rs | 2 +-
 derive/src/rpc/impl_rpc.rs     | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 1a836d6..76b50fe 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -39,8 +39,9 @@ impl RpcInput {
         }
     }
 
+    // must not hide types of the user, e.g. an argument type called `UserReq`
     pub(crate) fn req_ident(&self) -> Ident {
-        format_ident!("{}Req", self.ident)
+        format_ident!("__Zod{}Req__", self.ident)
     }
 }
 
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index e05a019..1e0647b 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -9,7 +9,7 @@ use quote::{format_ident, quote, quote_spanned};
 pub fn expand(input: BackendInput, fields: Fields<BackendField>) -> TokenStream {
     let __private = get_private();
     let ident = input.ident;
-    let req_ident = format_ident!("{}Req", ident);
+    let req_ident = format_ident!("__Zod{}Req__", ident);
 
     let backend_impl = expand_backend_impl(&ident, &req_ident, &fields);
     let req_enum = expand_req_enum(&ident, &req_ident, &fields);
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index cd994f2..2ba7e42 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -102,8 +102,8 @@ pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenS
                         #(#args),*
                     ],
                     res: &|| {
-                        fn extract_stream_item<S>(_: impl Fn(&mut #ns_ident, #(#arg_types),*) -> S) -> String where S: #__private::futures::Stream, S::Item: #zod::ZodType {
-                            <S::Item as #zod::ZodType>::type_def().to_string()
+                        fn extract_stream_item<__ZodStream>(_: impl Fn(&mut #ns_ident, #(#arg_types),*) -> __ZodStream) -> String where __ZodStream: #__private::futures::Stream, __ZodStream::Item: #zod::ZodType {
+                            <__ZodStream::Item as #zod::ZodType>::type_def().to_string()
                         }
 
                         extract_stream_item(#ns_ident :: #ident)
-- 
2.43.0


From 8bc5fa0288bb7c8277b939da8a8c7e367346401d Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 33/41] fix: derived code does not depend on what names from
 the prelude mean

---
 derive/src/impl_enum/mod.rs                   | 24 ++++++++--------
 .../src/impl_enum/variant/struct_variant.rs   |  4 +--
 derive/src/impl_enum/variant/tuple_variant.rs |  6 ++--
 derive/src/impl_enum/variant/unit_variant.rs  |  6 ++--
 derive/src/impl_namespace.rs                  |  4 +--
 derive/src/impl_struct.rs                     | 28 +++++++++----------
 derive/src/rpc/backend_impl.rs                |  6 ++--
 derive/src/rpc/impl_rpc.rs                    |  6 ++--
 8 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index ce3ef70..51d73bf 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -75,11 +75,11 @@ impl<'a> Enum<'a> {
         if let Some(t) = &self.from_ty {
             quote! {
                 impl #zod::ZodType for #ident {
-                    fn schema() -> String {
+                    fn schema() -> ::std::string::String {
                         <#t as #zod::ZodType>::schema()
                     }
 
-                    fn inline_schema() -> String {
+                    fn inline_schema() -> ::std::string::String {
                         <#t as #zod::ZodType>::inline_schema()
                     }
 
@@ -91,8 +91,8 @@ impl<'a> Enum<'a> {
                         <#t as #zod::ZodType>::inline()
                     }
 
-                    fn docs() -> Option<&'static str> {
-                        Some(#docs)
+                    fn docs() -> ::std::option::Option<&'static str> {
+                        ::std::option::Option::Some(#docs)
                     }
                 }
 
@@ -104,11 +104,11 @@ impl<'a> Enum<'a> {
         } else {
             quote! {
                 impl #zod::ZodType for #ident {
-                    fn schema() -> String {
+                    fn schema() -> ::std::string::String {
                         #schema
                     }
 
-                    fn inline_schema() -> String {
+                    fn inline_schema() -> ::std::string::String {
                         format!("z.lazy(() => {}.{})",
                             <#ns_path as #zod::Namespace>::NAME,
                             #name
@@ -126,8 +126,8 @@ impl<'a> Enum<'a> {
                         }
                     }
 
-                    fn docs() -> Option<&'static str> {
-                        Some(#docs)
+                    fn docs() -> ::std::option::Option<&'static str> {
+                        ::std::option::Option::Some(#docs)
                     }
                 }
 
@@ -156,7 +156,7 @@ impl<'a> Enum<'a> {
                 match self.tag {
                     TagType::External => {
                         quote! {
-                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            let variants: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
@@ -165,13 +165,13 @@ impl<'a> Enum<'a> {
                     {
                         let tag = js::string_literal(tag);
                         quote! {
-                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            let variants: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.discriminatedUnion({}, [{}])", #tag, variants.join(", "))
                         }
                     }
                     _ => {
                         quote! {
-                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            let variants: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
@@ -192,7 +192,7 @@ impl<'a> Enum<'a> {
                 let expanded_variant_type_defs = self.variants.iter().map(|v| v.expand_type_def());
 
                 quote! {
-                    let type_defs: std::vec::Vec<String> = vec![#(#expanded_variant_type_defs),*];
+                    let type_defs: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_variant_type_defs),*];
                     type_defs.join(" | ")
                 }
             }
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 68a5ddb..5ecd524 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -28,7 +28,7 @@ impl<'a> StructVariant<'a> {
                 let inner = self.fields.expand_schema();
                 quote! {
                     {
-                        let inner: std::vec::Vec<String> = vec![#(#inner),*];
+                        let inner: ::std::vec::Vec<::std::string::String> = vec![#(#inner),*];
                         inner.join(", ")
                     }
                 }
@@ -76,7 +76,7 @@ impl<'a> StructVariant<'a> {
             _ => {
                 quote! {
                     {
-                        let inner: std::vec::Vec<String> = vec![#(#expanded_fields),*];
+                        let inner: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_fields),*];
                         inner.join(", ")
                     }
                 }
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 4dab8f5..25f710a 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -40,7 +40,7 @@ impl<'a> TupleVariant<'a> {
                 let inner = self.fields.expand_schema();
                 quote! {
                     {
-                        let inner: std::vec::Vec<String> = vec![#(#inner),*];
+                        let inner: ::std::vec::Vec<::std::string::String> = vec![#(#inner),*];
                         format!("z.tuple([{}])", inner.join(", "))
                     }
                 }
@@ -64,7 +64,7 @@ impl<'a> TupleVariant<'a> {
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal({}), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
-                quote_spanned! {span =>  String::from(#inner) }
+                quote_spanned! {span =>  ::std::string::String::from(#inner) }
             }
         }
     }
@@ -94,7 +94,7 @@ impl<'a> TupleVariant<'a> {
             _ => {
                 quote! {
                     {
-                        let inner: std::vec::Vec<String> = vec![#(#expanded_fields),*];
+                        let inner: ::std::vec::Vec<::std::string::String> = vec![#(#expanded_fields),*];
                         format!("[{}]", inner.join(", "))
                     }
                 }
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index c58ef2b..e7569c0 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -27,7 +27,7 @@ impl<'a> UnitVariant<'a> {
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal({}) }})", #tag, #name))
             }
             TagType::None => {
-                quote_spanned!(self.span => String::from("z.null()"))
+                quote_spanned!(self.span => ::std::string::String::from("z.null()"))
             }
         }
     }
@@ -37,7 +37,7 @@ impl<'a> UnitVariant<'a> {
         let name = js::string_literal(&self.name);
         match self.tag {
             TagType::External => {
-                quote_spanned!(self.span => String::from(#name))
+                quote_spanned!(self.span => ::std::string::String::from(#name))
             }
             TagType::Internal { tag } => {
                 let tag = js::object_key(tag);
@@ -48,7 +48,7 @@ impl<'a> UnitVariant<'a> {
                 quote_spanned!(self.span => format!("{{ {}: {} }}", #tag, #name))
             }
             TagType::None => {
-                quote_spanned!(self.span => String::from("null"))
+                quote_spanned!(self.span => ::std::string::String::from("null"))
             }
         }
     }
diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 5cc3d7d..2c6e249 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -20,8 +20,8 @@ pub fn expand(
         impl #impl_generics #zod::Namespace for #ident #ty_generics #where_clause {
             const NAME: &'static str = #name;
 
-            fn docs() -> Option<&'static str> {
-                Some(#docs)
+            fn docs() -> ::std::option::Option<&'static str> {
+                ::std::option::Option::Some(#docs)
             }
         }
 
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index a49e6ea..765fb54 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -103,11 +103,11 @@ impl<'a> Struct<'a> {
         if let Some(t) = &self.from_ty {
             quote! {
                 impl #zod::ZodType for #ident {
-                    fn schema() -> String {
+                    fn schema() -> ::std::string::String {
                         <#t as #zod::ZodType>::inline_schema()
                     }
 
-                    fn inline_schema() -> String {
+                    fn inline_schema() -> ::std::string::String {
                         format!("z.lazy(() => {}.{})",
                             <#ns_path as #zod::Namespace>::NAME,
                             #name
@@ -123,8 +123,8 @@ impl<'a> Struct<'a> {
                         <#t as #zod::ZodType>::inline()
                     }
 
-                    fn docs() -> Option<&'static str> {
-                        Some(#docs)
+                    fn docs() -> ::std::option::Option<&'static str> {
+                        ::std::option::Option::Some(#docs)
                     }
                 }
 
@@ -143,11 +143,11 @@ impl<'a> Struct<'a> {
 
             quote! {
                 impl #zod::ZodType for #ident {
-                    fn schema() -> String {
+                    fn schema() -> ::std::string::String {
                         #schema
                     }
 
-                    fn inline_schema() -> String {
+                    fn inline_schema() -> ::std::string::String {
                         format!("z.lazy(() => {}.{})",
                             <#ns_path as #zod::Namespace>::NAME,
                             #name
@@ -165,8 +165,8 @@ impl<'a> Struct<'a> {
                         }
                     }
 
-                    fn docs() -> Option<&'static str> {
-                        Some(#docs)
+                    fn docs() -> ::std::option::Option<&'static str> {
+                        ::std::option::Option::Some(#docs)
                     }
                 }
 
@@ -199,7 +199,7 @@ impl<'a> Struct<'a> {
                     let fields = fields.into_iter().map(|f| f.expand_type_defs());
 
                     quote! {
-                        let fields: Vec<String> = vec![#(#fields),*];
+                        let fields: ::std::vec::Vec<::std::string::String> = vec![#(#fields),*];
                         format!("[{}]", fields.join(", "))
                     }
                 }
@@ -210,8 +210,8 @@ impl<'a> Struct<'a> {
                 let flat_fields = flat_fields.into_iter().map(|f| f.expand_type_defs());
 
                 quote! {
-                    let fields: Vec<String> = vec![#(#fields),*];
-                    let extensions: Vec<String> = vec![#(#flat_fields),*];
+                    let fields: ::std::vec::Vec<::std::string::String> = vec![#(#fields),*];
+                    let extensions: ::std::vec::Vec<::std::string::String> = vec![#(#flat_fields),*];
                     format!("{{{}}}{}", fields.join(",\n"), extensions.join(""))
                 }
             }
@@ -250,7 +250,7 @@ impl<'a> Struct<'a> {
                     let fields = fields.into_iter().map(|f| f.expand_schema());
 
                     quote! {
-                        let fields: Vec<String> = vec![#(#fields),*];
+                        let fields: ::std::vec::Vec<::std::string::String> = vec![#(#fields),*];
                         format!("z.tuple([{}])", fields.join(", "))
                     }
                 }
@@ -261,8 +261,8 @@ impl<'a> Struct<'a> {
                 let flat_fields = flat_fields.into_iter().map(|f| f.expand_schema());
 
                 quote! {
-                    let fields: Vec<String> = vec![#(#fields),*];
-                    let extensions: Vec<String> = vec![#(#flat_fields),*];
+                    let fields: ::std::vec::Vec<::std::string::String> = vec![#(#fields),*];
+                    let extensions: ::std::vec::Vec<::std::string::String> = vec![#(#flat_fields),*];
                     format!("z.object({{{}}}){}", fields.join(",\n"), extensions.join(""))
                 }
             }
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 1e0647b..93d00d9 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -55,9 +55,9 @@ fn expand_backend_impl(
                     #__private::Request::Exec { id, value } => {
                         match #req_ident::from_value(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
-                                if let Some(jh) = evt.call(id, self, sender).await {
+                                if let ::std::option::Option::Some(jh) = evt.call(id, self, sender).await {
                                     // a stream whose id is reused is no longer reachable
-                                    if let Some(previous) = subscribers.insert(id, jh) {
+                                    if let ::std::option::Option::Some(previous) = subscribers.insert(id, jh) {
                                         previous.abort();
                                     }
                                 }
@@ -70,7 +70,7 @@ fn expand_backend_impl(
                         }
                     }
                     #__private::Request::CancelStream { id } => {
-                        if let Some(jh) = subscribers.remove(&id) {
+                        if let ::std::option::Option::Some(jh) = subscribers.remove(&id) {
                             jh.abort();
                         }
                     }
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 2ba7e42..19f6898 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -102,7 +102,7 @@ pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenS
                         #(#args),*
                     ],
                     res: &|| {
-                        fn extract_stream_item<__ZodStream>(_: impl Fn(&mut #ns_ident, #(#arg_types),*) -> __ZodStream) -> String where __ZodStream: #__private::futures::Stream, __ZodStream::Item: #zod::ZodType {
+                        fn extract_stream_item<__ZodStream>(_: impl ::std::ops::Fn(&mut #ns_ident, #(#arg_types),*) -> __ZodStream) -> ::std::string::String where __ZodStream: #__private::futures::Stream, __ZodStream::Item: #zod::ZodType {
                             <__ZodStream::Item as #zod::ZodType>::type_def().to_string()
                         }
 
@@ -179,7 +179,7 @@ pub fn expand_req_variant_impl_method(
         {
             #__private::tracing::warn!(?err, "Failed to send response");
         }
-        None
+        ::std::option::Option::None
     }
 }
 
@@ -192,7 +192,7 @@ pub fn expand_req_variant_impl_stream(
     quote_spanned! { ident.span() =>
             let s = ctx.#ident(#(#expanded_args),*);
 
-            Some(#__private::tokio::spawn(async move {
+            ::std::option::Option::Some(#__private::tokio::spawn(async move {
                 async fn process_stream<T: #__private::serde::ser::Serialize>(st: impl #__private::futures::Stream<Item = T>, sender: #__private::ResponseSender, id: usize) {
                         #__private::futures::pin_mut!(st);
                         while let ::std::option::Option::Some(evt) = #__private::futures::StreamExt::next(&mut st).await {
-- 
2.43.0


From 59798ec426776057502799c92e9b81197fcbeab4 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 34/41] fix: arguments of service methods need not be Debug

---
 derive/src/rpc/backend_impl.rs | 1 -
 derive/src/rpc/impl_rpc.rs     | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 93d00d9..c29caad 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -104,7 +104,6 @@ pub fn expand_req_enum(
 
     quote! {
 
-        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 19f6898..4cd0121 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -28,7 +28,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 type Req = #req_ident;
             }
 
-            #[derive(#__private::serde::Deserialize, Debug)]
+            #[derive(#__private::serde::Deserialize)]
             #[serde(tag = "method")]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
-- 
2.43.0


From f47b096e49f30fa77d2f2410ef60a1a4c84b2585 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 35/41] fix: service methods take 128 bit integers and maps
 with numeric keys

---
 core/src/rpc/codegen/mod.rs | 11 +++++++++++
 derive/src/rpc/impl_rpc.rs  |  9 +++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..a7685c9 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -47,6 +47,17 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
+/// Reads the arguments of a request. What serde buffers for a tagged enum can not be read as
+/// 128 bit integers or maps with numeric keys, unlike the json it was made from.
+pub fn deserialize_args<'de, T, D>(deserializer: D) -> Result<T, D::Error>
+where
+    T: serde::de::DeserializeOwned,
+    D: serde::Deserializer<'de>,
+{
+    let value: serde_json::Value = serde::Deserialize::deserialize(deserializer)?;
+    serde_json::from_value(value).map_err(serde::de::Error::custom)
+}
+
 fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
     let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
 
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 4cd0121..e65b56a 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -5,7 +5,7 @@ use quote::{quote, quote_spanned};
 use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
-use crate::{get_private, get_private_spanned, get_zod};
+use crate::{get_crate_name, get_private, get_private_spanned, get_zod};
 
 pub fn expand(input: RpcInput) -> TokenStream {
     let __private = get_private();
@@ -135,8 +135,13 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
         return quote!(#ident { args: [(); 0] });
     }
 
+    let deserialize_args = format!("::{}::__private::codegen::deserialize_args", get_crate_name());
+
     quote! {
-        #ident { args: (#(#arg_types)*) }
+        #ident {
+            #[serde(deserialize_with = #deserialize_args)]
+            args: (#(#arg_types)*)
+        }
     }
 }
 
-- 
2.43.0


From 526281f4ac263b121c75e4041e46b885095fbad2 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 36/41] fix: services do not need a serde dependency of their
 own

---
 derive/src/rpc/impl_rpc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index e65b56a..ca8e022 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -9,6 +9,7 @@ use crate::{get_crate_name, get_private, get_private_spanned, get_zod};
 
 pub fn expand(input: RpcInput) -> TokenStream {
     let __private = get_private();
+    let serde = format!("::{}::__private::serde", get_crate_name());
 
     let req_ident = input.req_ident();
     let ident = input.ident;
@@ -29,7 +30,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
             }
 
             #[derive(#__private::serde::Deserialize)]
-            #[serde(tag = "method")]
+            #[serde(crate = #serde, tag = "method")]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
             #[allow(non_upper_case_globals)]
-- 
2.43.0


From a271f73e7d3978f592422eccb3cf03ead2618767 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 37/41] fix: types can be declared in a namespace that is
 imported or aliased

---
 derive/src/args.rs           |  1 -
 derive/src/impl_namespace.rs | 12 ++----------
 derive/src/lib.rs            | 20 +++++---------------
 3 files changed, 7 insertions(+), 26 deletions(-)

diff --git a/derive/src/args.rs b/derive/src/args.rs
index 930377a..67cc050 100644
--- a/derive/src/args.rs
+++ b/derive/src/args.rs
@@ -38,7 +38,6 @@ pub struct EnumField {
 #[derive(FromDeriveInput)]
 #[darling(attributes(namespace), forward_attrs(allow, doc, cfg))]
 pub struct NamespaceInput {
-    pub vis: syn::Visibility,
     pub ident: syn::Ident,
     pub data: Data<EnumVariant, StructField>,
     pub name: Option<String>,
diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 2c6e249..370d396 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,6 +1,6 @@
-use crate::{args, format_ident_for_registration, get_zod};
+use crate::{args, get_zod};
 use quote::quote;
-use syn::{ext::IdentExt, parse_quote};
+use syn::ext::IdentExt;
 
 pub fn expand(
     input: args::NamespaceInput,
@@ -10,11 +10,7 @@ pub fn expand(
     let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
-    let p = parse_quote!(#ident);
-    let register_path = format_ident_for_registration(&p);
-
     let zod = get_zod();
-    let vis = input.vis;
 
     quote! {
         impl #impl_generics #zod::Namespace for #ident #ty_generics #where_clause {
@@ -24,9 +20,5 @@ pub fn expand(
                 ::std::option::Option::Some(#docs)
             }
         }
-
-        #[allow(dead_code)]
-        #[allow(non_camel_case_types)]
-        #vis struct #register_path;
     }
 }
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index cfe39e9..5cfca23 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -165,37 +165,27 @@ pub fn namespace(_attr: TokenStream, input: TokenStream) -> TokenStream {
     output.into()
 }
 
-fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
-    let mut segments = p.segments.clone();
-    let last = segments.last_mut().unwrap();
-    last.ident = format_ident!("__ZodRegister__{}", last.ident);
-
-    syn::Path {
-        leading_colon: p.leading_colon,
-        segments,
-    }
-}
-
 /// Prevent duplicate interfaces
+///
+/// The namespace itself is the only thing that is in scope however it is imported
 fn expand_type_registration(
     ident: &Ident,
     ns_path: &Path,
     name: &str,
 ) -> proc_macro2::TokenStream {
-    let register_path = format_ident_for_registration(ns_path);
     // types are exported under their (possibly renamed) name
     let ident = match syn::parse_str::<Ident>(name) {
-        Ok(exported) => Ident::new(&exported.to_string(), ident.span()),
+        Ok(exported) => format_ident!("__ZodRegister__{}", exported, span = ident.span()),
         // e.g. keywords or names with a `$`
         Err(_) => name
             .chars()
-            .fold(format_ident!("__Zod", span = ident.span()), |acc, c| {
+            .fold(format_ident!("__ZodRegister", span = ident.span()), |acc, c| {
                 format_ident!("{}_{:x}", acc, c as u32)
             }),
     };
 
     quote_spanned! {ident.span() =>
-        impl #register_path {
+        impl #ns_path {
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
             const #ident: () = ();
-- 
2.43.0


From 8ea9785771ce29769eaf64e95e912fc182039b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 38/41] fix: a namespace of a backend can be called Error

---
 derive/src/rpc/backend_impl.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index c29caad..1a86cfc 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -87,6 +87,7 @@ pub fn expand_req_enum(
 ) -> TokenStream {
     let zod = get_zod();
     let __private = get_private();
+    let error = quote!(<#__private::serde_json::Error as #__private::serde::de::Error>);
     let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
         let variant_ident = variant_ident(index);
@@ -113,21 +114,19 @@ pub fn expand_req_enum(
             fn from_value(
                 value: #__private::serde_json::Value,
             ) -> ::std::result::Result<Self, #__private::serde_json::Error> {
-                use #__private::serde::de::Error;
-
                 let name = match value.get("namespace") {
                     ::std::option::Option::Some(#__private::serde_json::Value::String(name)) => name.as_str(),
                     ::std::option::Option::Some(_) => {
-                        return ::std::result::Result::Err(Error::custom("namespace is not a string"))
+                        return ::std::result::Result::Err(#error::custom("namespace is not a string"))
                     }
                     ::std::option::Option::None => {
-                        return ::std::result::Result::Err(Error::missing_field("namespace"))
+                        return ::std::result::Result::Err(#error::missing_field("namespace"))
                     }
                 };
 
                 #(#from_value)*
 
-                ::std::result::Result::Err(Error::unknown_variant(
+                ::std::result::Result::Err(#error::unknown_variant(
                     name,
                     <#backend_ident as #__private::server::Backend>::NS_NAMES,
                 ))
-- 
2.43.0


From d24acfc549b60a88e1f934144f8f819a8234b8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 39/41] fix: a type declared with from/try_from is referred to
 by its own name

---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 51d73bf..b45906e 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> ::std::string::String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> ::std::string::String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> ::std::option::Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 765fb54..962a36b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -120,7 +120,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> ::std::option::Option<&'static str> {
-- 
2.43.0


From ebb144a65b9806a17937f20663bf71243b766d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 40/41] fix: types can be derived without the rpc feature

---
 core/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 8363362..ef5aaca 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -14,6 +14,12 @@ use std::collections::BTreeMap;
 
 pub use build_ins::*;
 
+#[doc(hidden)]
+#[cfg(feature = "inventory")]
+pub mod __private {
+    pub use inventory;
+}
+
 pub trait ZodType {
     fn schema() -> String;
 
-- 
2.43.0


From 4cee9a99a2598fa1e730361f8effa00223203d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 41/41] fix: zod can be built without debug assertions

---
 build.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/build.rs b/build.rs
index 88ea6b9..175f054 100644
--- a/build.rs
+++ b/build.rs
@@ -1,6 +1,5 @@
 use std::{fs::File, io::Write};
 
-#[cfg(debug_assertions)]
 fn main() -> std::io::Result<()> {
     let out_dir = std::env::var("OUT_DIR").unwrap();
 
@@ -8,11 +7,19 @@ fn main() -> std::io::Result<()> {
     path.push(&out_dir);
     path.push("type-table.md");
 
-    let generated = zod_core::docs::generate();
+    let generated = generate();
     let mut file = File::create(path)?;
     file.write_all(generated.as_bytes())?;
     Ok(())
 }
 
+#[cfg(debug_assertions)]
+fn generate() -> String {
+    zod_core::docs::generate()
+}
+
+// the documentation is only generated in debug builds, but the file has to exist
 #[cfg(not(debug_assertions))]
-fn main() {}
+fn generate() -> String {
+    String::new()
+}
-- 
2.43.0

