From 1e4648a3bd1e65fdbf44843067edffbfe36c2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 01/44] fix: emit z.boolean() for bool

zod has no z.bool(): every schema with a bool threw when it was loaded.
---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index fc5ad9a..c04b278 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -143,7 +143,7 @@ impl_primitive!("number", isize, "z.number().finite().int()");
 impl_primitive!("number", f32, "z.number()");
 impl_primitive!("number", f64, "z.number()");
 
-impl_primitive!("boolean", bool, "z.bool()");
+impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
 impl_primitive!("null", (), "z.null()");
 
-- 
2.43.0


From 57c328ef50e30edf37faac4f176b039b352bad19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 02/44] fix: reject infinite numbers for floats

JSON has no infinities: they are sent as null, which no float deserialises from.
---
 core/src/build_ins.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c04b278..e391ae6 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -140,8 +140,8 @@ impl_primitive!(
 impl_primitive!("number", i128, "z.number().finite().int().lte(170141183460469231731687303715884105727).gte(-170141183460469231731687303715884105728)");
 impl_primitive!("number", isize, "z.number().finite().int()");
 
-impl_primitive!("number", f32, "z.number()");
-impl_primitive!("number", f64, "z.number()");
+impl_primitive!("number", f32, "z.number().finite()");
+impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
 impl_primitive!("string", char, "z.string().length(1)");
@@ -287,10 +287,18 @@ impl_primitive!("string", std::net::IpAddr, "z.string().ip()");
 impl_primitive!("string", smol_str::SmolStr, "z.string()");
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f32>, "z.number()");
+impl_primitive!(
+    "number",
+    ordered_float::NotNan<f32>,
+    "z.number().finite()"
+);
 
 #[cfg(feature = "ordered-float")]
-impl_primitive!("number", ordered_float::NotNan<f64>, "z.number()");
+impl_primitive!(
+    "number",
+    ordered_float::NotNan<f64>,
+    "z.number().finite()"
+);
 
 #[cfg(test)]
 mod test {
-- 
2.43.0


From 1fdd65881d001ea427e0439159d04caf0d0699cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 03/44] fix: accept chars outside the basic multilingual plane

The length of a JavaScript string counts UTF-16 code units, which is two for
such a char.
---
 core/src/build_ins.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index e391ae6..c75ce7a 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -144,7 +144,7 @@ impl_primitive!("number", f32, "z.number().finite()");
 impl_primitive!("number", f64, "z.number().finite()");
 
 impl_primitive!("boolean", bool, "z.boolean()");
-impl_primitive!("string", char, "z.string().length(1)");
+impl_primitive!("string", char, "z.string().regex(/^.$/su)");
 impl_primitive!("null", (), "z.null()");
 
 impl_tuples!(
-- 
2.43.0


From 4de177d8ebe32c82fd01c5dafc8a34bd4662ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 04/44] fix: represent PhantomData as null

serde reads and writes PhantomData<T> as null and rejects values of T.
---
 core/src/build_ins.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index c75ce7a..d22aa43 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -160,13 +160,30 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::cell::Cell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::cell::RefCell<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Mutex<T>);
 impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
-impl_wrapper!(impl<T: ZodType> ZodType for std::marker::PhantomData<T>);
 
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
 impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
 
+impl<T: ZodType> ZodType for std::marker::PhantomData<T> {
+    /// ```ts
+    /// // TS-type
+    /// null
+    /// ```
+    fn type_def() -> TsTypeDef {
+        <()>::type_def()
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.null()
+    /// ```
+    fn schema() -> String {
+        <()>::schema()
+    }
+}
+
 impl<T: ZodType> ZodType for Vec<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0


From e36a9a088af261e8f7bf6f5bf8934ab02b47dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 05/44] fix: check the length of arrays

The schema of [T; N] accepted any number of elements, the server only N.
---
 core/src/build_ins.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index d22aa43..e7ccffd 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -164,8 +164,6 @@ impl_wrapper!(impl<T: ZodType> ZodType for std::sync::Weak<T>);
 impl_shadow!("HashSet", "HashSet&lt;T,+RandomState&gt;", std::collections::HashSet<T>; impl<T: ZodType> ZodType for std::collections::BTreeSet<T>);
 impl_shadow!("HashMap", "HashMap&lt;K,+V,+RandomState&gt;", std::collections::HashMap<K, V>; impl<K: ZodType, V: ZodType> ZodType for std::collections::BTreeMap<K, V>);
 
-impl_shadow!("Vec", "Vec&lt;T&gt;", Vec<T>; impl<T: ZodType, const N: usize> ZodType for [T; N]);
-
 impl<T: ZodType> ZodType for std::marker::PhantomData<T> {
     /// ```ts
     /// // TS-type
@@ -202,6 +200,24 @@ impl<T: ZodType> ZodType for Vec<T> {
     }
 }
 
+impl<T: ZodType, const N: usize> ZodType for [T; N] {
+    /// ```ts
+    /// // TS-type
+    /// Array<T>
+    /// ```
+    fn type_def() -> TsTypeDef {
+        Vec::<T>::type_def()
+    }
+
+    /// ```ts
+    /// // zod schema
+    /// z.array(z.lazy(() => T)).length(N)
+    /// ```
+    fn schema() -> String {
+        format!("{}.length({})", Vec::<T>::schema(), N)
+    }
+}
+
 impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// ```ts
     /// // TS-type
-- 
2.43.0


From e6451026c9072dcf6fdfcbc7642596321be188f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 06/44] fix: do not recurse forever on recursive types behind
 wrappers and tuples

---
 core/src/build_ins.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index e7ccffd..aa35bbb 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -1,3 +1,4 @@
+use crate::InlinedType;
 use crate::TsTypeDef;
 use crate::ZodType;
 
@@ -48,7 +49,7 @@ macro_rules! impl_tuples {
             /// [T1, T2, ... ]
             /// ```
             fn type_def() -> TsTypeDef {
-                TsTypeDef::Type(format!("[{}]", vec![$($i::type_def().to_string()),*].join(", ")))
+                TsTypeDef::Type(format!("[{}]", vec![$($i::inline().to_string()),*].join(", ")))
             }
 
 
@@ -57,7 +58,7 @@ macro_rules! impl_tuples {
             /// z.tuple([T1, T2, ... ])
             /// ```
             fn schema() -> String {
-                format!("z.tuple([{}])", vec![$($i::schema()),*].join(", "))
+                format!("z.tuple([{}])", vec![$($i::inline_schema()),*].join(", "))
             }
         }
     };
@@ -87,6 +88,13 @@ macro_rules! impl_wrapper {
                 T::schema()
             }
 
+            fn inline_schema() -> String {
+                T::inline_schema()
+            }
+
+            fn inline() -> InlinedType {
+                T::inline()
+            }
         }
     };
 }
@@ -188,7 +196,7 @@ impl<T: ZodType> ZodType for Vec<T> {
     /// Array<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Array<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Array<{}>", T::inline()))
     }
 
     /// ```ts
@@ -224,7 +232,7 @@ impl<T: ZodType> ZodType for std::collections::HashSet<T> {
     /// Set<T>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Set<{}>", T::type_def()))
+        TsTypeDef::Type(format!("Set<{}>", T::inline()))
     }
 
     /// ```ts
@@ -242,7 +250,7 @@ impl<K: ZodType, V: ZodType> ZodType for std::collections::HashMap<K, V> {
     /// Map<K, V>
     /// ```
     fn type_def() -> TsTypeDef {
-        TsTypeDef::Type(format!("Map<{}, {}>", K::type_def(), V::type_def()))
+        TsTypeDef::Type(format!("Map<{}, {}>", K::inline(), V::inline()))
     }
 
     /// ```ts
@@ -261,7 +269,7 @@ impl<T: ZodType> ZodType for Option<T> {
     /// ```
     fn type_def() -> TsTypeDef {
         // Todo
-        TsTypeDef::Type(format!("({} | undefined)", T::type_def()))
+        TsTypeDef::Type(format!("({} | undefined)", T::inline()))
     }
 
     /// ```ts
@@ -281,8 +289,8 @@ impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
             "{{ Ok: {} }} | {{ Err: {} }}",
-            T::type_def(),
-            E::type_def()
+            T::inline(),
+            E::inline()
         ))
     }
 
-- 
2.43.0


From fcfcf6150a434e64e920536a0865a0b7ceed6e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 07/44] fix: do not recurse forever on recursive types using
 from or try_from

---
 derive/src/impl_enum/mod.rs | 14 ++++++++++----
 derive/src/impl_struct.rs   |  5 ++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 46c122e..774b3ec 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -76,19 +76,25 @@ impl<'a> Enum<'a> {
             quote! {
                 impl #zod::ZodType for #ident {
                     fn schema() -> String {
-                        <#t as #zod::ZodType>::schema()
+                        <#t as #zod::ZodType>::inline_schema()
                     }
 
                     fn inline_schema() -> String {
-                        <#t as #zod::ZodType>::inline_schema()
+                        format!("z.lazy(() => {}.{})",
+                            <#ns_path as #zod::Namespace>::NAME,
+                            #name
+                        )
                     }
 
                     fn type_def() -> #zod::TsTypeDef {
-                        <#t as #zod::ZodType>::type_def()
+                        #zod::TsTypeDef::Type(<#t as #zod::ZodType>::inline().to_string())
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 75def9d..295b4b1 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -109,7 +109,10 @@ impl<'a> Struct<'a> {
                     }
 
                     fn inline() -> #zod::InlinedType {
-                        <#t as #zod::ZodType>::inline()
+                        #zod::InlinedType::Ref {
+                            ns_name: <#ns_path as #zod::Namespace>::NAME,
+                            name: #name
+                        }
                     }
 
                     fn docs() -> Option<&'static str> {
-- 
2.43.0


From 61deb278665532800ef9fb8db5a345d859818a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:37 +0000
Subject: [PATCH 08/44] fix: quote and escape names which are no valid
 identifiers

---
 derive/src/impl_enum/field.rs                 |  4 +--
 derive/src/impl_enum/mod.rs                   |  3 +-
 .../src/impl_enum/variant/struct_variant.rs   |  7 +++++
 derive/src/impl_enum/variant/tuple_variant.rs |  5 ++++
 derive/src/impl_enum/variant/unit_variant.rs  |  9 ++++--
 derive/src/impl_struct.rs                     |  6 ++--
 derive/src/lib.rs                             |  1 +
 derive/src/ts.rs                              | 29 +++++++++++++++++++
 8 files changed, 57 insertions(+), 7 deletions(-)
 create mode 100644 derive/src/ts.rs

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 2166cd2..8a06d51 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -1,4 +1,4 @@
-use crate::{args::EnumField, get_zod};
+use crate::{args::EnumField, get_zod, ts};
 
 use darling::ast::Style;
 use proc_macro2::TokenStream;
@@ -30,7 +30,7 @@ impl<'a> VariantFields<'a> {
                         }),
                         Style::Struct => VariantField::Named(NamedField {
                             enum_field,
-                            name: f.attrs.name().deserialize_name(),
+                            name: ts::key(&f.attrs.name().deserialize_name()),
                             optional: !f.attrs.default().is_none(),
                         }),
                         Style::Unit => unreachable!(),
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 774b3ec..1cdf034 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -1,7 +1,7 @@
 mod field;
 mod variant;
 
-use crate::{docs::RustDocs, expand_type_registration, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, impl_inventory, ts};
 use variant::Variant;
 
 use super::args;
@@ -167,6 +167,7 @@ impl<'a> Enum<'a> {
                         }
                     }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
+                        let tag = ts::escape(tag);
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.discriminatedUnion(\"{}\", [{}])", #tag, variants.join(", "))
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 6eeabab..b1a32b7 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -1,4 +1,5 @@
 use super::field;
+use crate::ts;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use serde_derive_internals::{ast, attr::TagType};
@@ -38,12 +39,15 @@ impl<'a> StructVariant<'a> {
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
+                let name = ts::key(&name);
                 quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
             }
             TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::escape(&name));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {} }})", #tag, #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, name, content) = (ts::key(tag), ts::escape(&name), ts::key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -77,15 +81,18 @@ impl<'a> StructVariant<'a> {
         match self.serde_ast.attrs.tag() {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
+                let name = ts::key(&name);
                 quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::escape(&name));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
+                let (tag, name, content) = (ts::key(tag), ts::escape(&name), ts::key(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index b20a29a..258a0dc 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -1,5 +1,6 @@
 use super::field;
 use super::UnitVariant;
+use crate::ts;
 use proc_macro2::Span;
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
@@ -48,9 +49,11 @@ impl<'a> TupleVariant<'a> {
 
         match self.tag {
             TagType::External | TagType::Internal { .. } => {
+                let name = ts::key(name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, name, content) = (ts::key(tag), ts::escape(name), ts::key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
             }
             TagType::None => {
@@ -92,9 +95,11 @@ impl<'a> TupleVariant<'a> {
 
         match tag_type {
             TagType::External | TagType::Internal { .. } => {
+                let name = ts::key(name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
             TagType::Adjacent { tag, content } => {
+                let (tag, name, content) = (ts::key(tag), ts::escape(name), ts::key(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
             }
             TagType::None => {
diff --git a/derive/src/impl_enum/variant/unit_variant.rs b/derive/src/impl_enum/variant/unit_variant.rs
index 59efcfc..a1e0794 100644
--- a/derive/src/impl_enum/variant/unit_variant.rs
+++ b/derive/src/impl_enum/variant/unit_variant.rs
@@ -1,3 +1,4 @@
+use crate::ts;
 use proc_macro2::{Span, TokenStream};
 use quote::quote_spanned;
 use serde_derive_internals::attr::TagType;
@@ -12,15 +13,17 @@ pub struct UnitVariant<'a> {
 
 impl<'a> UnitVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::escape(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("z.literal(\"{}\")", #name))
             }
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span=> format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name))
             }
             TagType::None => {
@@ -31,15 +34,17 @@ impl<'a> UnitVariant<'a> {
 
     /// Example `A`  ->  `"A"`
     pub fn expand_type_defs(&self) -> TokenStream {
-        let name = &self.name;
+        let name = ts::escape(&self.name);
         match self.tag {
             TagType::External => {
                 quote_spanned!(self.span => format!("\"{}\"", #name))
             }
             TagType::Internal { tag } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::Adjacent { tag, .. } => {
+                let tag = ts::key(tag);
                 quote_spanned!(self.span => format!("{{ {}: \"{}\" }}", #tag, #name))
             }
             TagType::None => {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 295b4b1..b2f268c 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -1,4 +1,4 @@
-use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory};
+use crate::{docs::RustDocs, expand_type_registration, get_zod, impl_inventory, ts};
 
 use super::args;
 use darling::ast::{Fields, Style};
@@ -38,7 +38,9 @@ pub fn expand(
         .filter(|(_, attrs)| !attrs.skip_deserializing())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
-            name: ident.as_ref().map(|_| attrs.name().deserialize_name()),
+            name: ident
+                .as_ref()
+                .map(|_| ts::key(&attrs.name().deserialize_name())),
             optional: !attrs.default().is_none(),
             transparent,
             flatten: attrs.flatten(),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index bff2bac..e78555a 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -12,6 +12,7 @@ mod impl_enum;
 mod impl_inventory;
 mod impl_namespace;
 mod impl_struct;
+mod ts;
 
 use darling::{ast::Data, FromDeriveInput};
 use docs::RustDocs;
diff --git a/derive/src/ts.rs b/derive/src/ts.rs
new file mode 100644
index 0000000..6fc8c19
--- /dev/null
+++ b/derive/src/ts.rs
@@ -0,0 +1,29 @@
+//! Helpers to embed names in generated typescript code
+
+/// Get the property key for a name. Names which are no valid identifiers are quoted.
+pub fn key(name: &str) -> String {
+    let mut chars = name.chars();
+    let is_start = |c: char| c.is_ascii_alphabetic() || c == '_' || c == '$';
+
+    if chars.next().map_or(false, is_start) && chars.all(|c| is_start(c) || c.is_ascii_digit()) {
+        name.to_string()
+    } else {
+        format!("\"{}\"", escape(name))
+    }
+}
+
+/// Escape a name for the use inside of a double quoted string.
+pub fn escape(name: &str) -> String {
+    let mut out = String::with_capacity(name.len());
+    for c in name.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            c if c.is_control() => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+    out
+}
-- 
2.43.0


From e9ba047028299d677b6b4742f620899cdc134179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 09/44] fix: do not let docs terminate the generated comment

---
 derive/src/docs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 11c5002..35a44aa 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -42,7 +42,8 @@ impl ToTokens for RustDocs {
                 let docs = format!(
                     "/**\n{}*/\n",
                     docs.lines()
-                        .map(|line| format!("* {}\n", line))
+                        // do not let the docs terminate the comment
+                        .map(|line| format!("* {}\n", line.replace("*/", "*\\/")))
                         .collect::<String>()
                 );
                 tokens.extend(quote!(#docs))
-- 
2.43.0


From 72d0bf1e0ab23eb40a856b7f1673f07f90c15751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 10/44] fix: emit type aliases for tuple and flattened structs

---
 derive/src/impl_struct.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index b2f268c..941d3e1 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -128,9 +128,11 @@ impl<'a> Struct<'a> {
 
             }
         } else {
-            let interface_or_type = match (self.fields.len() == 1, self.style, self.transparent) {
-                (_, Style::Unit, _) | (true, Style::Tuple, _) | (_, _, true) => quote!(Type),
-                _ => quote!(Interface),
+            let has_flat_fields = self.fields.iter().any(|f| f.flatten);
+            let interface_or_type = match (self.style, self.transparent) {
+                // only plain objects can be expressed as an interface
+                (Style::Struct, false) if !has_flat_fields => quote!(Interface),
+                _ => quote!(Type),
             };
 
             quote! {
-- 
2.43.0


From 787e61fe3e282ad49bd75d1adf135aa4d8c82484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 11/44] fix: keep tuples with skipped fields tuples

---
 derive/src/impl_enum/field.rs                 | 11 ++++++++++-
 derive/src/impl_enum/variant/tuple_variant.rs | 16 ++++++++--------
 derive/src/impl_struct.rs                     | 18 ++++++++++--------
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 8a06d51..4cc14c4 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,7 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    is_newtype: bool,
 }
 
 impl<'a> VariantFields<'a> {
@@ -41,12 +42,20 @@ impl<'a> VariantFields<'a> {
             })
             .collect();
 
-        Self { inner }
+        Self {
+            inner,
+            is_newtype: variant.fields.len() == 1,
+        }
     }
     pub fn len(&self) -> usize {
         self.inner.len()
     }
 
+    /// skipped fields do not turn a tuple into a newtype
+    pub fn is_newtype(&self) -> bool {
+        self.is_newtype
+    }
+
     pub fn expand_type_defs(&self) -> Vec<TokenStream> {
         self.inner.iter().map(|f| f.expand_type_def()).collect()
     }
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 258a0dc..1e5d9a0 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -17,9 +17,9 @@ pub struct TupleVariant<'a> {
 
 impl<'a> TupleVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
-        let inner = match self.fields.len() {
-            0 => {
-                // may occur if fields are skipped. In this case we handle it like a unit variant
+        let inner = match (self.fields.is_newtype(), self.fields.len()) {
+            (true, 0) => {
+                // may occur if the field is skipped. In this case we handle it like a unit variant
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -27,7 +27,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_schema();
             }
-            1 => self
+            (true, _) => self
                 .fields
                 .expand_schema()
                 .into_iter()
@@ -68,9 +68,9 @@ impl<'a> TupleVariant<'a> {
         let tag_type = self.tag;
         let name = &self.name;
 
-        let inner = match expanded_fields.len() {
-            // may occur if fields are skipped. In this case we handle it like a unit variant
-            0 => {
+        let inner = match (self.fields.is_newtype(), expanded_fields.len()) {
+            // may occur if the field is skipped. In this case we handle it like a unit variant
+            (true, 0) => {
                 return UnitVariant {
                     span: self.span,
                     tag: self.tag,
@@ -78,7 +78,7 @@ impl<'a> TupleVariant<'a> {
                 }
                 .expand_type_defs()
             }
-            1 => expanded_fields
+            (true, _) => expanded_fields
                 .first()
                 .expect("exactly one variant")
                 .clone(),
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 941d3e1..fec6506 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -31,6 +31,8 @@ pub fn expand(
     };
 
     let style = fields.style;
+    // skipped fields do not turn a tuple into a newtype
+    let is_newtype = fields.len() == 1;
 
     let fields = fields
         .iter()
@@ -61,6 +63,7 @@ pub fn expand(
         ident,
         fields,
         style,
+        is_newtype,
         from_ty,
     };
 
@@ -75,6 +78,7 @@ struct Struct<'a> {
     name: String,
     fields: Vec<StructField<'a>>,
     style: Style,
+    is_newtype: bool,
     from_ty: Option<syn::Type>,
 }
 
@@ -182,15 +186,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_type_defs(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.is_newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_type_defs(),
-                _ => {
+                false => {
                     let fields = fields.into_iter().map(|f| f.expand_type_defs());
 
                     quote! {
@@ -225,15 +228,14 @@ impl<'a> Struct<'a> {
                 .expect("At least one field")
                 .expand_schema(),
 
-            (false, Style::Tuple) => match fields.len() {
-                0 => unreachable!("handled by darling"),
-                1 => fields
+            (false, Style::Tuple) => match self.is_newtype {
+                true => fields
                     .into_iter()
                     .next()
                     .or_else(|| flat_fields.into_iter().next())
                     .expect("Newtype")
                     .expand_schema(),
-                _ => {
+                false => {
                     // make sure all fields followed an optional field are also optional
                     if let Some(f) = fields
                         .iter()
-- 
2.43.0


From 5634d0a9dff7c6d112f08034d6cadebb3fc4b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 12/44] fix: support struct variants without any remaining
 field

---
 derive/src/impl_enum/variant/struct_variant.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index b1a32b7..5990f37 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -17,7 +17,8 @@ pub struct StructVariant<'a> {
 impl<'a> StructVariant<'a> {
     pub fn expand_schema(&self) -> TokenStream {
         let inner = match self.fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // may occur if fields are skipped
+            0 => quote!(""),
             1 => {
                 let inner = self.fields.expand_schema();
                 inner.first().expect("one field").clone()
@@ -62,7 +63,8 @@ impl<'a> StructVariant<'a> {
         let name = self.attrs.name().deserialize_name();
 
         let inner = match expanded_fields.len() {
-            0 => unreachable!("Empty tuple structs are handled by darling"),
+            // may occur if fields are skipped
+            0 => quote!(""),
             1 => expanded_fields
                 .first()
                 .expect("exactly one variant")
-- 
2.43.0


From 01bbfed4c7b9430cc809a96fc66091a5557d6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 13/44] fix: represent internally tagged newtype variants

---
 derive/src/impl_enum/mod.rs                   |  7 +++++++
 derive/src/impl_enum/variant/mod.rs           |  8 ++++++++
 derive/src/impl_enum/variant/tuple_variant.rs | 12 ++++++++++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 1cdf034..7142f58 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -166,6 +166,13 @@ impl<'a> Enum<'a> {
                             format!("z.union([{}])", variants.join(", "))
                         }
                     }
+                    // only plain objects are allowed in a discriminated union
+                    TagType::Internal { .. } if self.variants.iter().any(Variant::is_newtype) => {
+                        quote! {
+                            let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
+                            format!("z.union([{}])", variants.join(", "))
+                        }
+                    }
                     TagType::Internal { tag } | TagType::Adjacent { tag, .. } => {
                         let tag = ts::escape(tag);
                         quote! {
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index 3fccd76..c914fce 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -48,6 +48,14 @@ impl<'a> Variant<'a> {
         }
     }
 
+    /// true for tuple variants with exactly one field which is not skipped
+    pub fn is_newtype(&self) -> bool {
+        match self {
+            Variant::Tuple(tuple) => tuple.fields.is_newtype() && tuple.fields.len() == 1,
+            _ => false,
+        }
+    }
+
     /// expand a single variant of an enum into a zod schema
     pub fn expand_schema(&self) -> TokenStream {
         match self {
diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index 1e5d9a0..a94c7e3 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -48,10 +48,14 @@ impl<'a> TupleVariant<'a> {
         let span = self.span;
 
         match self.tag {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 let name = ts::key(name);
                 quote_spanned! {span =>  format!("z.object({{ {}: {} }})", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::escape(name));
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, name, content) = (ts::key(tag), ts::escape(name), ts::key(content));
                 quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: {} }})", #tag, #name, #content, #inner) }
@@ -94,10 +98,14 @@ impl<'a> TupleVariant<'a> {
         };
 
         match tag_type {
-            TagType::External | TagType::Internal { .. } => {
+            TagType::External => {
                 let name = ts::key(name);
                 quote_spanned! {span =>  format!("{{ {}: {} }}", #name, #inner) }
             }
+            TagType::Internal { tag } => {
+                let (tag, name) = (ts::key(tag), ts::escape(name));
+                quote_spanned! {span =>  format!("{{ {}: \"{}\" }} & ({})", #tag, #name, #inner) }
+            }
             TagType::Adjacent { tag, content } => {
                 let (tag, name, content) = (ts::key(tag), ts::escape(name), ts::key(content));
                 quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {} }}", #tag, #name, #content, #inner) }
-- 
2.43.0


From e9312b8ff44e599e08e640451429604374349872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 14/44] fix: respect the default attribute of the container

---
 derive/src/impl_struct.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index fec6506..098834d 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -34,6 +34,10 @@ pub fn expand(
     // skipped fields do not turn a tuple into a newtype
     let is_newtype = fields.len() == 1;
 
+    // serde falls back to the default of the container for every missing field
+    let has_container_default =
+        matches!(style, Style::Struct) && !transparent && !serde_ast.attrs.default().is_none();
+
     let fields = fields
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
@@ -43,7 +47,8 @@ pub fn expand(
             name: ident
                 .as_ref()
                 .map(|_| ts::key(&attrs.name().deserialize_name())),
-            optional: !attrs.default().is_none(),
+            optional: !attrs.default().is_none()
+                || (has_container_default && !attrs.flatten()),
             transparent,
             flatten: attrs.flatten(),
         })
-- 
2.43.0


From 080e6202ef598514ceda5b00864e4198c31aac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 15/44] fix: pick the field representing a transparent struct

---
 derive/src/impl_struct.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 098834d..9079ed7 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -42,6 +42,8 @@ pub fn expand(
         .iter()
         .zip(fields_ast.iter().map(|f| &f.attrs))
         .filter(|(_, attrs)| !attrs.skip_deserializing())
+        // transparent structs are represented by exactly one field
+        .filter(|(_, attrs)| !transparent || attrs.transparent())
         .map(|(args::StructField { ty, ident }, attrs)| StructField {
             ty,
             name: ident
-- 
2.43.0


From b3a3c8c38a2652bb96d27da50fcca547f2cb918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 16/44] fix: accept calls of methods without arguments

---
 derive/src/rpc/impl_rpc.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c280c72..40b4fe8 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -130,6 +130,13 @@ pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
+    if item.arg_types.is_empty() {
+        // `()` is represented as `null` but clients send an empty array
+        return quote! {
+            #ident { args: [(); 0] }
+        };
+    }
+
     quote! {
         #ident { args: (#(#arg_types)*) }
     }
-- 
2.43.0


From be378a1a25df6a6549595763a0fced0134f9c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 17/44] fix: do not panic if the client is gone when a method
 returns

---
 derive/src/rpc/impl_rpc.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 40b4fe8..72a90c6 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -175,9 +175,12 @@ pub fn expand_req_variant_impl_method(
         ident.span() =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
-        sender
+        // the client may be gone in the meantime
+        if let ::std::result::Result::<_, _>::Err(err) = sender
             .unbounded_send(#__private::Response::method(id, res))
-            .unwrap();
+        {
+            #__private::tracing::warn!(?err, "Failed to send response");
+        }
         None
     }
 }
-- 
2.43.0


From 48bc3c16c8d2b43a9ef9d7248de43d218838eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 18/44] fix: abort streams replaced by a stream with the same
 id

---
 derive/src/rpc/backend_impl.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2922009..9f08b2a 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -56,7 +56,10 @@ fn expand_backend_impl(
                         match #__private::serde_json::from_value::<#req_ident>(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
-                                    subscribers.insert(id, jh);
+                                    // nobody can cancel the replaced stream anymore
+                                    if let Some(replaced) = subscribers.insert(id, jh) {
+                                        replaced.abort();
+                                    }
                                 }
                             }
                             ::std::result::Result::<_, _>::Err(err) => {
-- 
2.43.0


From cdb408b3145cb886683cc9edfd29f90244de8616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 19/44] fix: drop the streams of a connection when the client
 disconnects

---
 src/rpc/servers/proxy.rs | 105 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 92 insertions(+), 13 deletions(-)

diff --git a/src/rpc/servers/proxy.rs b/src/rpc/servers/proxy.rs
index 4f61970..ca15c4f 100644
--- a/src/rpc/servers/proxy.rs
+++ b/src/rpc/servers/proxy.rs
@@ -3,11 +3,34 @@ use futures::{
     SinkExt, Stream, StreamExt,
 };
 use pin_project_lite::pin_project;
-use zod_core::rpc::{server::Backend, Request, Response};
+use std::{
+    collections::HashMap,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc, Weak,
+    },
+};
+use zod_core::rpc::{
+    server::{Backend, SubscriberMap},
+    Request, Response,
+};
+
+#[derive(Debug)]
+enum Event {
+    Request {
+        con: usize,
+        req: Result<Request, Response>,
+        res: UnboundedSender<Response>,
+    },
+    Disconnect {
+        con: usize,
+    },
+}
 
 #[derive(Clone, Debug)]
 pub struct BackendProxy {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    tx: Arc<UnboundedSender<Event>>,
+    next_con: Arc<AtomicUsize>,
 }
 
 impl BackendProxy {
@@ -16,26 +39,51 @@ impl BackendProxy {
         T: Backend + Send + 'static,
     {
         let (tx, mut rx) = unbounded();
-        let mut subscribers = Default::default();
+        // ids are chosen by the clients so every connection has its own subscribers
+        let mut subscribers = HashMap::<usize, SubscriberMap>::new();
 
         tokio::spawn(async move {
-            while let Some((result, mut res)) = rx.next().await {
-                match result {
-                    Ok(req) => backend.handle_request(req, res, &mut subscribers).await,
-                    Err(err) => {
+            while let Some(event) = rx.next().await {
+                match event {
+                    Event::Request {
+                        con,
+                        req: Ok(req),
+                        res,
+                    } => {
+                        let client = res.clone();
+                        backend
+                            .handle_request(req, res, subscribers.entry(con).or_default())
+                            .await;
+
+                        if client.is_closed() {
+                            subscribers.remove(&con);
+                        }
+                    }
+                    Event::Request {
+                        req: Err(err),
+                        mut res,
+                        ..
+                    } => {
                         if let Err(err) = res.send(err).await {
                             tracing::warn!(?err);
                         }
                     }
+                    Event::Disconnect { con } => {
+                        subscribers.remove(&con);
+                    }
                 }
             }
         });
 
-        Self { tx }
+        Self {
+            tx: Arc::new(tx),
+            next_con: Default::default(),
+        }
     }
     pub fn connect(&self) -> ProxyConnection {
         let (res_tx, res_rx) = unbounded();
         ProxyConnection {
+            con: self.next_con.fetch_add(1, Ordering::Relaxed),
             tx: self.tx.clone(),
             res_tx,
             res_rx,
@@ -44,27 +92,42 @@ impl BackendProxy {
 }
 
 pub struct ProxyConnection {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    con: usize,
+    tx: Arc<UnboundedSender<Event>>,
     res_tx: UnboundedSender<Response>,
     res_rx: UnboundedReceiver<Response>,
 }
 
 impl ProxyConnection {
     pub fn split(self) -> (ProxyTx, ProxyRx) {
-        let ProxyConnection { tx, res_tx, res_rx } = self;
-        (ProxyTx { tx, res_tx }, ProxyRx { res_rx })
+        let ProxyConnection {
+            con,
+            tx,
+            res_tx,
+            res_rx,
+        } = self;
+        let guard = DisconnectGuard {
+            con,
+            tx: Arc::downgrade(&tx),
+        };
+        (ProxyTx { con, tx, res_tx }, ProxyRx { res_rx, guard })
     }
 }
 
 pub struct ProxyTx {
-    tx: UnboundedSender<(Result<Request, Response>, UnboundedSender<Response>)>,
+    con: usize,
+    tx: Arc<UnboundedSender<Event>>,
     res_tx: UnboundedSender<Response>,
 }
 
 impl ProxyTx {
     pub fn send(&self, req: Result<Request, Response>) -> Result<(), ClientError> {
         self.tx
-            .unbounded_send((req, self.res_tx.clone()))
+            .unbounded_send(Event::Request {
+                con: self.con,
+                req,
+                res: self.res_tx.clone(),
+            })
             .map_err(|_| ClientError::Disconnected)
     }
 }
@@ -73,6 +136,22 @@ pin_project! {
     pub struct ProxyRx {
         #[pin]
         res_rx: UnboundedReceiver<Response>,
+        // must be dropped after `res_rx`
+        guard: DisconnectGuard,
+    }
+}
+
+/// Tells the backend to drop the subscribers of a connection
+struct DisconnectGuard {
+    con: usize,
+    tx: Weak<UnboundedSender<Event>>,
+}
+
+impl Drop for DisconnectGuard {
+    fn drop(&mut self) {
+        if let Some(tx) = self.tx.upgrade() {
+            let _ = tx.unbounded_send(Event::Disconnect { con: self.con });
+        }
     }
 }
 
-- 
2.43.0


From 890adc6cfa2fd7ba5ae7b8f1a25474921febb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 20/44] fix: identify namespaces by their name

---
 derive/src/rpc/backend_impl.rs | 40 +++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 9f08b2a..61982fe 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -53,7 +53,7 @@ fn expand_backend_impl(
             ) {
                 match req {
                     #__private::Request::Exec { id, value } => {
-                        match #__private::serde_json::from_value::<#req_ident>(value) {
+                        match #req_ident::from_value(value) {
                             ::std::result::Result::<_, _>::Ok(evt) => {
                                 if let Some(jh) = evt.call(id, self, sender).await {
                                     // nobody can cancel the replaced stream anymore
@@ -81,19 +81,53 @@ fn expand_backend_impl(
 }
 
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
+    let zod = get_zod();
     let __private = get_private();
     let req_variants = fields.iter().map(|f| {
         let ty = &f.ty;
         let variant_ident = variant_ident_from_ty(ty);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
+    let names = fields.iter().map(|f| {
+        let ty = &f.ty;
+        quote_spanned!(ty.span() => <#ty as #zod::Namespace>::NAME)
+    });
+
+    let req_dispatch = fields.iter().map(|f| {
+        let ty = &f.ty;
+        let variant_ident = variant_ident_from_ty(ty);
+        quote_spanned! {
+            ty.span() =>
+            if namespace == <#ty as #zod::Namespace>::NAME {
+                return #__private::serde_json::from_value(value).map(Self::#variant_ident);
+            }
+        }
+    });
+
     quote! {
 
-        #[derive(#__private::serde::Deserialize, Debug)]
-        #[serde(tag = "namespace")]
+        #[derive(Debug)]
         enum #ident {
             #(#req_variants),*
         }
+
+        impl #ident {
+            // namespaces are identified by name which may differ from the name of the type
+            fn from_value(
+                value: #__private::serde_json::Value,
+            ) -> ::std::result::Result<Self, #__private::serde_json::Error> {
+                use #__private::serde::de::Error;
+
+                let namespace = match value.get("namespace").and_then(|namespace| namespace.as_str()) {
+                    ::std::option::Option::Some(namespace) => namespace,
+                    ::std::option::Option::None => return Err(Error::missing_field("namespace")),
+                };
+
+                #(#req_dispatch)*
+
+                Err(Error::unknown_variant(namespace, &[#(#names),*]))
+            }
+        }
     }
 }
 
-- 
2.43.0


From 10f51e5e5a91f9d1e76dbeadfe1dafd3a4c17bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 21/44] fix: do not emit invalid argument and method names

---
 derive/src/rpc/args.rs     | 75 ++++++++++++++++++++++++++++++++++++--
 derive/src/rpc/impl_rpc.rs |  4 +-
 2 files changed, 74 insertions(+), 5 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 7226b12..d5c9412 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -113,7 +113,7 @@ impl RpcItem {
             );
         }
 
-        let arg_types = sig
+        let arg_types: Vec<RpcArg> = sig
             .inputs
             .iter()
             .filter_map(|arg| match arg {
@@ -121,12 +121,13 @@ impl RpcItem {
                 syn::FnArg::Typed(t) => Some(RpcArg {
                     ty: t.ty.clone(),
                     name: match t.pat.as_ref() {
-                        syn::Pat::Ident(ident) => ident.ident.to_string(),
+                        syn::Pat::Ident(ident) => ident.ident.unraw().to_string(),
                         _ => abort_call_site!("Expected an ident, got {:?}", t.pat),
                     },
                 }),
             })
             .collect();
+        let arg_types = rename_reserved_args(arg_types);
 
         Self {
             ident,
@@ -137,6 +138,74 @@ impl RpcItem {
     }
 }
 
+/// Names which are valid in Rust but not as an argument of the generated function
+const RESERVED_ARG_NAMES: &[&str] = &[
+    "arguments",
+    "await",
+    "break",
+    "case",
+    "catch",
+    "class",
+    "const",
+    "continue",
+    "debugger",
+    "default",
+    "delete",
+    "do",
+    "else",
+    "enum",
+    "eval",
+    "export",
+    "extends",
+    "false",
+    "finally",
+    "for",
+    "function",
+    "if",
+    "implements",
+    "import",
+    "in",
+    "instanceof",
+    "interface",
+    "let",
+    "new",
+    "null",
+    "package",
+    "private",
+    "protected",
+    "public",
+    "request",
+    "return",
+    "static",
+    "subscribe",
+    "switch",
+    "this",
+    "throw",
+    "true",
+    "try",
+    "typeof",
+    "var",
+    "void",
+    "while",
+    "with",
+    "yield",
+    "z",
+];
+
+/// Arguments are passed by position so renaming them is safe
+fn rename_reserved_args(mut args: Vec<RpcArg>) -> Vec<RpcArg> {
+    for i in 0..args.len() {
+        if RESERVED_ARG_NAMES.contains(&args[i].name.as_str()) {
+            let mut name = args[i].name.clone();
+            while args.iter().any(|arg| arg.name == name) {
+                name.push('_');
+            }
+            args[i].name = name;
+        }
+    }
+    args
+}
+
 pub enum RpcItemKind {
     Method,
     Stream,
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 72a90c6..93d6319 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -2,7 +2,7 @@ use proc_macro2::TokenStream;
 
 use proc_macro_error::abort;
 use quote::{quote, quote_spanned};
-use syn::{Ident, Type};
+use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
 use crate::{get_private, get_private_spanned, get_zod};
@@ -61,7 +61,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.to_string();
+    let name = item.ident.unraw().to_string();
 
     let args = item
         .arg_types
-- 
2.43.0


From e9e8262e0e3205a1f6cbf6f18900f6bdaccd0084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 22/44] fix: do not lose requests when the connection of the
 client is reopened

---
 src/rpc/clients/static/websocket_client.ts | 64 +++++++++++-----------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 453c28e..5bf868e 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -7,7 +7,8 @@ const reopenTimeouts = [100, 200, 1000, 3000];
 function websocketStore(url: string) {
   let initialValue: unknown = undefined;
   let socket: WebSocket | undefined;
-  let openPromise: Promise<undefined> | undefined;
+  // frames which have not been sent yet
+  const queue: string[] = [];
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
@@ -24,36 +25,39 @@ function websocketStore(url: string) {
   function close() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
+      reopenTimeoutHandler = undefined;
     }
 
     if (socket) {
-      socket.close();
+      const closing = socket;
       socket = undefined;
+      closing.close();
     }
   }
 
   function reopen() {
     close();
-    if (subscriptions.size > 0) {
+    if (subscriptions.size > 0 || queue.length > 0) {
       reopenTimeoutHandler = setTimeout(() => open(), reopenTimeout());
     }
   }
 
-  async function open(): Promise<undefined> {
+  function open() {
     if (reopenTimeoutHandler) {
       clearTimeout(reopenTimeoutHandler);
       reopenTimeoutHandler = undefined;
     }
 
     // we are still in the opening phase
-    if (openPromise) {
-      return openPromise;
+    if (socket && socket.readyState === WebSocket.CONNECTING) {
+      return;
     }
 
     console.debug("creating a new socket");
-    socket = new WebSocket(url);
+    const current = new WebSocket(url);
+    socket = current;
 
-    socket.onmessage = (event) => {
+    current.onmessage = (event) => {
       const res = JSON.parse(event.data);
       console.trace({ response: res });
 
@@ -71,49 +75,47 @@ function websocketStore(url: string) {
       }
     };
 
-    socket.onclose = (event: Event) => {
+    current.onclose = (event: Event) => {
+      // this socket has been closed or replaced in the meantime
+      if (socket !== current) {
+        return;
+      }
       if (subscriptions.size > 0) {
         console.warn(event);
       }
       reopen();
     };
 
-    openPromise = new Promise((resolve, reject) => {
-      if (!socket) {
-        openPromise = undefined;
+    current.onopen = (_: Event) => {
+      if (socket !== current) {
         return;
       }
-
-      socket.onerror = (error) => {
-        reject(error);
-        openPromise = undefined;
-      };
-      socket.onopen = (_: Event) => {
-        reopenCount = 0;
-        resolve(undefined);
-        openPromise = undefined;
-      };
-    });
-    return openPromise;
+      reopenCount = 0;
+      flush();
+    };
   }
 
-  const open_and_send = (value: string) => {
-    if (!socket || socket.readyState !== WebSocket.OPEN)
-      open().then(() => open_and_send(value));
-    else {
+  function flush() {
+    if (!socket || socket.readyState !== WebSocket.OPEN) {
+      open();
+      return;
+    }
+
+    for (const value of queue.splice(0)) {
       socket.send(value);
     }
-  };
+  }
 
   return {
     send(value: string) {
-      open_and_send(value);
+      queue.push(value);
+      flush();
     },
     subscribe(subscription: (value: [number, unknown]) => void) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
-        if (subscriptions.size === 0) {
+        if (subscriptions.size === 0 && queue.length === 0) {
           close();
         }
       };
-- 
2.43.0


From 9d5f5a22d5eb7f3e9342861dc822fd6aeebbc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 23/44] fix: reject requests answered with an error

---
 src/rpc/clients/static/websocket_client.ts | 23 ++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index 5bf868e..b0eec42 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -12,7 +12,9 @@ function websocketStore(url: string) {
   let reopenTimeoutHandler: any;
   let reopenCount = 0;
 
-  const subscriptions = new Set<([id, data]: [number, unknown]) => void>();
+  const subscriptions = new Set<
+    ([id, data, error]: [number, unknown, unknown?]) => void
+  >();
 
   function reopenTimeout() {
     const n = reopenCount;
@@ -72,6 +74,11 @@ function websocketStore(url: string) {
         subscriptions.forEach((subscription) =>
           subscription(initialValue as any)
         );
+      } else if ("error" in res) {
+        console.error(res.error);
+        subscriptions.forEach((subscription) =>
+          subscription([res.error.id, undefined, res.error.data])
+        );
       }
     };
 
@@ -111,7 +118,7 @@ function websocketStore(url: string) {
       queue.push(value);
       flush();
     },
-    subscribe(subscription: (value: [number, unknown]) => void) {
+    subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       subscriptions.add(subscription);
       return () => {
         subscriptions.delete(subscription);
@@ -156,8 +163,8 @@ export function subscribe<T>(
 
   let store = {
     subscribe(cb: (value: T) => void) {
-      return CONNECTION.subscribe(([res_id, data]) => {
-        if (res_id == id) {
+      return CONNECTION.subscribe(([res_id, data, error]) => {
+        if (res_id == id && error === undefined) {
           cb(data as T);
         }
       });
@@ -176,14 +183,18 @@ export async function request<T>(
   args: IArguments
 ): Promise<T> {
   let unsubscribe: () => void | undefined;
-  let promise = new Promise((resolve: (_: T) => void, _) => {
+  let promise = new Promise((resolve: (_: T) => void, reject) => {
     req_id += 1;
     let id = req_id;
     let request = { req_id, namespace, method, args: [...args] };
     let start = performance.now();
 
-    unsubscribe = CONNECTION.subscribe(([res_id, data]: [number, any]) => {
+    unsubscribe = CONNECTION.subscribe(([res_id, data, error]: [number, any, unknown?]) => {
       if (res_id == id) {
+        if (error !== undefined) {
+          reject(error);
+          return;
+        }
         console.log("Exec Response", {
           req_id,
           request,
-- 
2.43.0


From 9abc6a236462c4407f8d29604f9435c137e376e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 24/44] fix: send sets as arrays and maps as objects

---
 src/rpc/clients/static/websocket_client.ts | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index b0eec42..c6ae5e5 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -149,7 +149,23 @@ function execute({
   method: string;
   args: any[];
 }): string {
-  return JSON.stringify({ exec: { id: req_id, method, namespace, args } });
+  return JSON.stringify(
+    { exec: { id: req_id, method, namespace, args } },
+    replacer
+  );
+}
+
+// represent values without a JSON equivalent the way the server expects them
+function replacer(_: string, value: any): any {
+  if (value instanceof Set) {
+    return [...value];
+  }
+  if (value instanceof Map) {
+    return Object.fromEntries(
+      [...value].map(([key, item]) => [key, item === undefined ? null : item])
+    );
+  }
+  return value;
 }
 
 export function subscribe<T>(
-- 
2.43.0


From 3a70bcd016c0074088ce11d4810f651bea0c717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 25/44] fix: cancel streams closed by the client

---
 src/rpc/clients/static/websocket_client.ts | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rpc/clients/static/websocket_client.ts b/src/rpc/clients/static/websocket_client.ts
index c6ae5e5..0d8e81b 100644
--- a/src/rpc/clients/static/websocket_client.ts
+++ b/src/rpc/clients/static/websocket_client.ts
@@ -118,6 +118,13 @@ function websocketStore(url: string) {
       queue.push(value);
       flush();
     },
+    // send without opening a connection
+    notify(value: string) {
+      if (queue.length > 0 || (socket && socket.readyState === WebSocket.OPEN)) {
+        queue.push(value);
+        flush();
+      }
+    },
     subscribe(subscription: (value: [number, unknown, unknown?]) => void) {
       subscriptions.add(subscription);
       return () => {
@@ -177,6 +184,8 @@ export function subscribe<T>(
   let id = req_id;
   let req = { req_id, namespace, method, args: [...args] };
 
+  let closed = false;
+
   let store = {
     subscribe(cb: (value: T) => void) {
       return CONNECTION.subscribe(([res_id, data, error]) => {
@@ -185,7 +194,13 @@ export function subscribe<T>(
         }
       });
     },
-    close() {},
+    close() {
+      if (!closed) {
+        closed = true;
+        // the server drops the streams of closed connections
+        CONNECTION.notify(JSON.stringify({ cancelStream: { id } }));
+      }
+    },
   };
 
   CONNECTION.send(execute(req));
-- 
2.43.0


From 55bcbae0ccd022ecf719ca5bee818025abf07b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 26/44] fix: reject types exported with the same name

---
 derive/src/impl_enum/mod.rs |  2 +-
 derive/src/impl_struct.rs   |  2 +-
 derive/src/lib.rs           | 18 ++++++++++++++++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 7142f58..74f7c84 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -69,7 +69,7 @@ impl<'a> Enum<'a> {
         let docs = &self.docs;
         let schema = self.expand_schema();
         let type_def = self.expand_typ_defs();
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         if let Some(t) = &self.from_ty {
diff --git a/derive/src/impl_struct.rs b/derive/src/impl_struct.rs
index 9079ed7..a0ca34b 100644
--- a/derive/src/impl_struct.rs
+++ b/derive/src/impl_struct.rs
@@ -98,7 +98,7 @@ impl<'a> Struct<'a> {
         let name = &self.name;
         let docs = &self.docs;
 
-        let type_register = expand_type_registration(ident, ns_path);
+        let type_register = expand_type_registration(ident, ns_path, name);
         let inventory = impl_inventory::expand(ident, ns_path, name);
 
         let zod = get_zod();
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index e78555a..f48be15 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -177,14 +177,28 @@ fn format_ident_for_registration(p: &syn::Path) -> syn::Path {
 }
 
 /// Prevent duplicate interfaces
-fn expand_type_registration(ident: &Ident, ns_path: &Path) -> proc_macro2::TokenStream {
+fn expand_type_registration(
+    ident: &Ident,
+    ns_path: &Path,
+    name: &str,
+) -> proc_macro2::TokenStream {
     let register_path = format_ident_for_registration(ns_path);
 
+    // types are exported by name which may differ from the ident if the type is renamed
+    let mut const_ident = syn::parse_str::<Ident>(name).unwrap_or_else(|_| {
+        let escaped = name
+            .chars()
+            .map(|c| format!("_{:x}", c as u32))
+            .collect::<String>();
+        format_ident!("__{}", escaped)
+    });
+    const_ident.set_span(ident.span());
+
     quote_spanned! {ident.span() =>
         impl #register_path {
             #[allow(dead_code)]
             #[allow(non_upper_case_globals)]
-            const #ident: () = ();
+            const #const_ident: () = ();
         }
     }
 }
-- 
2.43.0


From b2895cda94effc5ede3af2433402a4c7425f1227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 27/44] fix: attach docs to the first type of a namespace

---
 core/src/rpc/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/rpc/server.rs b/core/src/rpc/server.rs
index fa4bed7..e661493 100644
--- a/core/src/rpc/server.rs
+++ b/core/src/rpc/server.rs
@@ -146,7 +146,8 @@ pub trait Backend {
         let mut code = T::get();
 
         for (ns, ns_code) in records.into_iter() {
-            write!(code, "export namespace {} {{ {} }}", ns, ns_code).expect("write failed");
+            // docs are attached to the first member only if they start on a new line
+            write!(code, "export namespace {} {{\n{} }}", ns, ns_code).expect("write failed");
         }
         code
     }
-- 
2.43.0


From 080880b9351beac0ad07f0ccc4cd5a15cfed9a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 28/44] fix: accept 128 bit integers and maps with integer keys
 as arguments

---
 derive/src/rpc/impl_rpc.rs | 46 +++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 93d6319..ea864c0 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -14,6 +14,8 @@ pub fn expand(input: RpcInput) -> TokenStream {
     let ident = input.ident;
 
     let req_variant_defs = input.items.iter().map(expand_req_variant_decl);
+    let req_variant_names = input.items.iter().map(method_name);
+    let req_variant_dispatch = input.items.iter().map(expand_req_variant_dispatch);
     let req_variant_impls = input.items.iter().map(expand_req_variant_impl);
 
     let inventory_submits = input
@@ -28,8 +30,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 type Req = #req_ident;
             }
 
-            #[derive(#__private::serde::Deserialize, Debug)]
-            #[serde(tag = "method")]
+            #[derive(Debug)]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
             #[allow(non_upper_case_globals)]
@@ -37,6 +38,29 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 #(#req_variant_defs),*
             }
 
+            // Tagged enums buffer their content which does not support all types (e.g. `u128` or
+            // maps with integer keys) so arguments are deserialized from the JSON value instead.
+            impl<'de> #__private::serde::Deserialize<'de> for #req_ident {
+                fn deserialize<D>(deserializer: D) -> ::std::result::Result<Self, D::Error>
+                where
+                    D: #__private::serde::Deserializer<'de>,
+                {
+                    use #__private::serde::de::Error;
+
+                    let mut value: #__private::serde_json::Value = #__private::serde::Deserialize::deserialize(deserializer)?;
+                    let args = value
+                        .get_mut("args")
+                        .map(#__private::serde_json::Value::take)
+                        .ok_or_else(|| D::Error::missing_field("args"));
+
+                    match value.get("method").and_then(|method| method.as_str()) {
+                        #(#req_variant_dispatch)*
+                        ::std::option::Option::Some(method) => Err(D::Error::unknown_variant(method, &[#(#req_variant_names),*])),
+                        ::std::option::Option::None => Err(D::Error::missing_field("method")),
+                    }
+                }
+            }
+
             impl #req_ident {
                 #[allow(dead_code)]
                 #[allow(unused_variables)]
@@ -61,7 +85,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
 pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let zod = get_zod();
-    let name = item.ident.unraw().to_string();
+    let name = method_name(item);
 
     let args = item
         .arg_types
@@ -126,6 +150,22 @@ pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenS
     }
 }
 
+fn method_name(item: &args::RpcItem) -> String {
+    item.ident.unraw().to_string()
+}
+
+fn expand_req_variant_dispatch(item: &args::RpcItem) -> TokenStream {
+    let __private = get_private();
+    let ident = &item.ident;
+    let name = method_name(item);
+
+    quote! {
+        ::std::option::Option::Some(#name) => #__private::serde_json::from_value(args?)
+            .map(|args| Self::#ident { args })
+            .map_err(D::Error::custom),
+    }
+}
+
 pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
-- 
2.43.0


From 8ba14ce48b2109e789fcc2c698353210c0e41534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 29/44] fix: let other tasks run between the items of a stream

---
 derive/src/rpc/impl_rpc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index ea864c0..c771023 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -244,6 +244,10 @@ pub fn expand_req_variant_impl_stream(
                                 #__private::tracing::warn!(?err, "Failed to emit event");
                                 break;
                             }
+
+                            // a stream that is always ready must not block other tasks and has to
+                            // be cancellable
+                            #__private::tokio::task::yield_now().await;
                         }
                 }
 
-- 
2.43.0


From 4131b4f8bcbaa7053660222346b99c5a61456832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 30/44] fix: allow backends with namespace types of the same
 name

---
 derive/src/rpc/backend_impl.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 61982fe..2bb15bd 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -1,6 +1,6 @@
 use darling::ast::Fields;
 use proc_macro2::TokenStream;
-use syn::{parse_quote, spanned::Spanned, Ident, Path};
+use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
 use crate::{get_private, get_zod};
@@ -83,9 +83,9 @@ fn expand_backend_impl(
 pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStream {
     let zod = get_zod();
     let __private = get_private();
-    let req_variants = fields.iter().map(|f| {
+    let req_variants = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned!(ty.span() => #variant_ident(<#ty as #__private::codegen::RpcNamespace>::Req))
     });
     let names = fields.iter().map(|f| {
@@ -93,9 +93,9 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
         quote_spanned!(ty.span() => <#ty as #zod::Namespace>::NAME)
     });
 
-    let req_dispatch = fields.iter().map(|f| {
+    let req_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         quote_spanned! {
             ty.span() =>
             if namespace == <#ty as #zod::Namespace>::NAME {
@@ -140,7 +140,7 @@ pub fn expand_req_enum_impl(
 
     let req_call_dispatch = fields.iter().enumerate().map(|(index, f)| {
         let ty = &f.ty;
-        let variant_ident = variant_ident_from_ty(ty);
+        let variant_ident = variant_ident(index);
         let field_or_index = f.ident.clone().map(|ident| quote!(#ident)).unwrap_or_else(|| {
             let index = syn::Index::from(index);
             quote!(#index)
@@ -166,7 +166,7 @@ pub fn expand_req_enum_impl(
     }
 }
 
-fn variant_ident_from_ty(ty: &syn::Type) -> Ident {
-    let p: Path = parse_quote!(#ty);
-    p.segments.last().expect("one segment").ident.clone()
+// the types of different namespaces may have the same name
+fn variant_ident(index: usize) -> Ident {
+    format_ident!("Namespace{}", index)
 }
-- 
2.43.0


From 1568d3d62c806422502efedf1453f521130a3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 31/44] fix: parse internally tagged newtype variants in linear
 time

---
 derive/src/impl_enum/variant/tuple_variant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/impl_enum/variant/tuple_variant.rs b/derive/src/impl_enum/variant/tuple_variant.rs
index a94c7e3..cd33f71 100644
--- a/derive/src/impl_enum/variant/tuple_variant.rs
+++ b/derive/src/impl_enum/variant/tuple_variant.rs
@@ -54,7 +54,12 @@ impl<'a> TupleVariant<'a> {
             }
             TagType::Internal { tag } => {
                 let (tag, name) = (ts::key(tag), ts::escape(name));
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\") }}).and({})", #tag, #name, #inner) }
+                // look at the tag first, otherwise every variant parses its content and the time to parse
+                // nested values grows exponentially with their depth
+                quote_spanned! {span =>  {
+                    let tag = format!("z.object({{ {}: z.literal(\"{}\") }})", #tag, #name);
+                    format!("{tag}.passthrough().pipe({tag}.and({}))", #inner)
+                } }
             }
             TagType::Adjacent { tag, content } => {
                 let (tag, name, content) = (ts::key(tag), ts::escape(name), ts::key(content));
-- 
2.43.0


From 42c934705c1c9bd825fceb99770cbb464166d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:51 +0000
Subject: [PATCH 32/44] fix: represent members named __proto__

---
 derive/src/ts.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/derive/src/ts.rs b/derive/src/ts.rs
index 6fc8c19..8e57c73 100644
--- a/derive/src/ts.rs
+++ b/derive/src/ts.rs
@@ -5,7 +5,12 @@ pub fn key(name: &str) -> String {
     let mut chars = name.chars();
     let is_start = |c: char| c.is_ascii_alphabetic() || c == '_' || c == '$';
 
-    if chars.next().map_or(false, is_start) && chars.all(|c| is_start(c) || c.is_ascii_digit()) {
+    // `__proto__: x` sets the prototype instead of a member
+    if name == "__proto__" {
+        format!("[\"{}\"]", name)
+    } else if chars.next().map_or(false, is_start)
+        && chars.all(|c| is_start(c) || c.is_ascii_digit())
+    {
         name.to_string()
     } else {
         format!("\"{}\"", escape(name))
-- 
2.43.0


From 38fa53b0981b6e84f0ff32375d54dbcfd14e5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 33/44] fix: represent flattened fields of struct variants

---
 derive/src/impl_enum/field.rs                 | 37 +++++++++++++++++++
 derive/src/impl_enum/mod.rs                   |  2 +-
 derive/src/impl_enum/variant/mod.rs           |  8 ++--
 .../src/impl_enum/variant/struct_variant.rs   | 24 ++++++++----
 4 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/derive/src/impl_enum/field.rs b/derive/src/impl_enum/field.rs
index 4cc14c4..1c23958 100644
--- a/derive/src/impl_enum/field.rs
+++ b/derive/src/impl_enum/field.rs
@@ -8,6 +8,8 @@ use syn::spanned::Spanned;
 /// represents the fields inside a variant
 pub struct VariantFields<'a> {
     inner: Vec<VariantField<'a>>,
+    /// types whose members become members of the variant
+    flat: Vec<&'a EnumField>,
     is_newtype: bool,
 }
 
@@ -17,11 +19,23 @@ impl<'a> VariantFields<'a> {
         serde_variant: &'a serde_derive_internals::ast::Variant,
     ) -> Self {
         let style = variant.fields.style;
+        let is_flat = |f: &serde_derive_internals::ast::Field| {
+            matches!(style, Style::Struct) && f.attrs.flatten() && !f.attrs.skip_deserializing()
+        };
+
+        let flat = variant
+            .fields
+            .iter()
+            .zip(&serde_variant.fields)
+            .filter(|(_, f)| is_flat(f))
+            .map(|(enum_field, _)| enum_field)
+            .collect();
 
         let inner = variant
             .fields
             .iter()
             .zip(&serde_variant.fields)
+            .filter(|(_, f)| !is_flat(f))
             .filter_map(|(enum_field, f)| {
                 if !f.attrs.skip_deserializing() {
                     Some(match style {
@@ -44,6 +58,7 @@ impl<'a> VariantFields<'a> {
 
         Self {
             inner,
+            flat,
             is_newtype: variant.fields.len() == 1,
         }
     }
@@ -56,6 +71,28 @@ impl<'a> VariantFields<'a> {
         self.is_newtype
     }
 
+    pub fn has_flat(&self) -> bool {
+        !self.flat.is_empty()
+    }
+
+    /// the types of the flattened fields as ` & T`
+    pub fn expand_flat_type_defs(&self) -> TokenStream {
+        let zod = get_zod();
+        let types = self.flat.iter().map(|EnumField { ty, .. }| {
+            quote_spanned!(ty.span() => format!(" & ({})", <#ty as #zod::ZodType>::inline()))
+        });
+        quote!(<[String]>::concat(&[#(#types),*]))
+    }
+
+    /// the schemas of the flattened fields as `.and(T)`
+    pub fn expand_flat_schemas(&self) -> TokenStream {
+        let zod = get_zod();
+        let schemas = self.flat.iter().map(|EnumField { ty, .. }| {
+            quote_spanned!(ty.span() => format!(".and({})", <#ty as #zod::ZodType>::inline_schema()))
+        });
+        quote!(<[String]>::concat(&[#(#schemas),*]))
+    }
+
     pub fn expand_type_defs(&self) -> Vec<TokenStream> {
         self.inner.iter().map(|f| f.expand_type_def()).collect()
     }
diff --git a/derive/src/impl_enum/mod.rs b/derive/src/impl_enum/mod.rs
index 74f7c84..5a3969e 100644
--- a/derive/src/impl_enum/mod.rs
+++ b/derive/src/impl_enum/mod.rs
@@ -167,7 +167,7 @@ impl<'a> Enum<'a> {
                         }
                     }
                     // only plain objects are allowed in a discriminated union
-                    TagType::Internal { .. } if self.variants.iter().any(Variant::is_newtype) => {
+                    TagType::Internal { .. } if self.variants.iter().any(Variant::has_foreign_members) => {
                         quote! {
                             let variants: ::std::vec::Vec<String> = vec![#(#expanded_variant_schemas),*];
                             format!("z.union([{}])", variants.join(", "))
diff --git a/derive/src/impl_enum/variant/mod.rs b/derive/src/impl_enum/variant/mod.rs
index c914fce..936fe01 100644
--- a/derive/src/impl_enum/variant/mod.rs
+++ b/derive/src/impl_enum/variant/mod.rs
@@ -48,11 +48,13 @@ impl<'a> Variant<'a> {
         }
     }
 
-    /// true for tuple variants with exactly one field which is not skipped
-    pub fn is_newtype(&self) -> bool {
+    /// true for variants whose members include those of another type: tuple variants with exactly one
+    /// field which is not skipped and struct variants with flattened fields
+    pub fn has_foreign_members(&self) -> bool {
         match self {
             Variant::Tuple(tuple) => tuple.fields.is_newtype() && tuple.fields.len() == 1,
-            _ => false,
+            Variant::Struct(strukt) => strukt.fields.has_flat(),
+            Variant::Unit(_) => false,
         }
     }
 
diff --git a/derive/src/impl_enum/variant/struct_variant.rs b/derive/src/impl_enum/variant/struct_variant.rs
index 5990f37..743df95 100644
--- a/derive/src/impl_enum/variant/struct_variant.rs
+++ b/derive/src/impl_enum/variant/struct_variant.rs
@@ -37,11 +37,20 @@ impl<'a> StructVariant<'a> {
 
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
+        let flat = self.fields.expand_flat_schemas();
 
         match self.serde_ast.attrs.tag() {
             TagType::External => {
                 let name = ts::key(&name);
-                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}) }})", #name, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.object({{ {} }}){} }})", #name, #inner, #flat) }
+            }
+            TagType::Internal { tag } if self.fields.has_flat() => {
+                let (tag, name) = (ts::key(tag), ts::escape(&name));
+                // look at the tag first, see `TupleVariant`
+                quote_spanned! {span =>  {
+                    let tag = format!("{}: z.literal(\"{}\")", #tag, #name);
+                    format!("z.object({{ {tag} }}).passthrough().pipe(z.object({{ {tag}, {} }}){})", #inner, #flat)
+                } }
             }
             TagType::Internal { tag } => {
                 let (tag, name) = (ts::key(tag), ts::escape(&name));
@@ -49,16 +58,17 @@ impl<'a> StructVariant<'a> {
             }
             TagType::Adjacent { tag, content } => {
                 let (tag, name, content) = (ts::key(tag), ts::escape(&name), ts::key(content));
-                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}) }})", #tag, #name, #content, #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {}: z.literal(\"{}\"), {}: z.object({{ {} }}){} }})", #tag, #name, #content, #inner, #flat) }
             }
             TagType::None => {
-                quote_spanned! {span =>  format!("z.object({{ {} }})", #inner) }
+                quote_spanned! {span =>  format!("z.object({{ {} }}){}", #inner, #flat) }
             }
         }
     }
 
     pub fn expand_type_defs(&self) -> TokenStream {
         let expanded_fields = self.fields.expand_type_defs();
+        let flat = self.fields.expand_flat_type_defs();
         let span = self.ident.span();
         let name = self.attrs.name().deserialize_name();
 
@@ -84,22 +94,22 @@ impl<'a> StructVariant<'a> {
             // `A{ num: usize, s: String }` -> `{ A: { num: number, s: string } }`
             TagType::External => {
                 let name = ts::key(&name);
-                quote_spanned! {span =>  format!("{{ {}: {{ {} }} }}", #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: {{ {} }}{} }}", #name, #inner, #flat) }
             }
             // `A{ num: usize, s: String }` -> `{ type: "A", num: number, s: string }`
             TagType::Internal { tag } => {
                 let (tag, name) = (ts::key(tag), ts::escape(&name));
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}", #tag, #name, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: \"{}\", {} }}{}", #tag, #name, #inner, #flat) }
             }
 
             // `A{ num: usize, s: String }` -> `{ type: "A", content: { num: number, s: string }}`
             TagType::Adjacent { tag, content } => {
                 let (tag, name, content) = (ts::key(tag), ts::escape(&name), ts::key(content));
-                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }} }}", #tag, #name, #content, #inner) }
+                quote_spanned! {span =>  format!("{{ {}: \"{}\", {}: {{ {} }}{} }}", #tag, #name, #content, #inner, #flat) }
             }
             // `A{ num: usize, s: String }` -> `{ num: number, s: string }`
             TagType::None => {
-                quote_spanned! {span =>  format!("{{ {} }}", #inner) }
+                quote_spanned! {span =>  format!("{{ {} }}{}", #inner, #flat) }
             }
         }
     }
-- 
2.43.0


From 997759deeed22148ca2c5a888a408e1fa5ef7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 34/44] fix: parenthesise the type of Result

---
 core/src/build_ins.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/build_ins.rs b/core/src/build_ins.rs
index aa35bbb..95bf272 100644
--- a/core/src/build_ins.rs
+++ b/core/src/build_ins.rs
@@ -284,11 +284,11 @@ impl<T: ZodType> ZodType for Option<T> {
 impl<T: ZodType, E: ZodType> ZodType for Result<T, E> {
     /// ```ts
     /// // TS-type
-    /// { Ok: T } | { Err: E }
+    /// ({ Ok: T } | { Err: E })
     /// ```
     fn type_def() -> TsTypeDef {
         TsTypeDef::Type(format!(
-            "{{ Ok: {} }} | {{ Err: {} }}",
+            "({{ Ok: {} }} | {{ Err: {} }})",
             T::inline(),
             E::inline()
         ))
-- 
2.43.0


From 0f9ebd353981802340d400f59fdbd62df4bf4490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 35/44] fix: arguments must not hide the namespaces schemas
 refer to

---
 core/src/rpc/codegen/mod.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/core/src/rpc/codegen/mod.rs b/core/src/rpc/codegen/mod.rs
index ec4b5da..be382ed 100644
--- a/core/src/rpc/codegen/mod.rs
+++ b/core/src/rpc/codegen/mod.rs
@@ -15,7 +15,7 @@ pub trait RpcNamespace: crate::Namespace {
 }
 
 pub struct RpcArgument {
-    name: &'static str,
+    name: String,
     type_def: String,
     schema: String,
 }
@@ -23,7 +23,7 @@ pub struct RpcArgument {
 impl RpcArgument {
     pub fn new<T: crate::ZodType>(name: &'static str) -> Self {
         Self {
-            name,
+            name: name.to_string(),
             type_def: T::inline().to_string(),
             schema: T::inline_schema(),
         }
@@ -47,8 +47,29 @@ pub enum RpcMember {
 
 inventory::collect!(RpcMember);
 
+/// Arguments must not hide the namespaces which the schemas refer to. They are passed by position so
+/// renaming them is safe.
+fn rename_hiding_args(mut args: Vec<RpcArgument>) -> Vec<RpcArgument> {
+    let is_namespace = |name: &str| {
+        inventory::iter::<crate::NamespaceMemberDefinition>()
+            .into_iter()
+            .any(|member| member.namespace() == name)
+    };
+
+    for i in 0..args.len() {
+        if is_namespace(&args[i].name) {
+            let mut name = args[i].name.clone();
+            while is_namespace(&name) || args.iter().any(|arg| arg.name == name) {
+                name.push('_');
+            }
+            args[i].name = name;
+        }
+    }
+    args
+}
+
 fn create_phantom_arg_names(args: &[RpcArgument]) -> String {
-    let phantom_arg_names = args.iter().map(|arg| arg.name).collect::<Vec<_>>();
+    let phantom_arg_names = args.iter().map(|arg| arg.name.as_str()).collect::<Vec<_>>();
 
     if phantom_arg_names.is_empty() {
         String::new()
@@ -67,7 +88,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = rename_hiding_args((args)());
                 let res = (res)();
 
                 let arg_fields = args
@@ -102,7 +123,7 @@ impl RpcMember {
                 ns_name,
                 ..
             } => {
-                let args = (args)();
+                let args = rename_hiding_args((args)());
                 let res = (res)();
 
                 let arg_fields = args
-- 
2.43.0


From 5e67aac58b8adfea0befc279011781e4ed1eba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 36/44] fix: types named like a keyword of newer editions

---
 derive/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index f48be15..36edb79 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -185,14 +185,17 @@ fn expand_type_registration(
     let register_path = format_ident_for_registration(ns_path);
 
     // types are exported by name which may differ from the ident if the type is renamed
-    let mut const_ident = syn::parse_str::<Ident>(name).unwrap_or_else(|_| {
-        let escaped = name
-            .chars()
-            .map(|c| format!("_{:x}", c as u32))
-            .collect::<String>();
-        format_ident!("__{}", escaped)
-    });
-    const_ident.set_span(ident.span());
+    let const_ident = match syn::parse_str::<Ident>(name) {
+        // raw because some words are keywords only in newer editions
+        Ok(_) if !name.starts_with("r#") => Ident::new_raw(name, ident.span()),
+        _ => {
+            let escaped = name
+                .chars()
+                .map(|c| format!("_{:x}", c as u32))
+                .collect::<String>();
+            format_ident!("__{}", escaped, span = ident.span())
+        }
+    };
 
     quote_spanned! {ident.span() =>
         impl #register_path {
-- 
2.43.0


From d7cd8745f35c66f4b49c3f799eb316c06d474921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 37/44] fix: names of namespaces with a raw identifier

---
 derive/src/impl_namespace.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/impl_namespace.rs b/derive/src/impl_namespace.rs
index 629d944..5cc3d7d 100644
--- a/derive/src/impl_namespace.rs
+++ b/derive/src/impl_namespace.rs
@@ -1,13 +1,13 @@
 use crate::{args, format_ident_for_registration, get_zod};
 use quote::quote;
-use syn::parse_quote;
+use syn::{ext::IdentExt, parse_quote};
 
 pub fn expand(
     input: args::NamespaceInput,
     docs: crate::docs::RustDocs,
 ) -> proc_macro2::TokenStream {
     let ident = input.ident;
-    let name = input.name.unwrap_or_else(|| ident.to_string());
+    let name = input.name.unwrap_or_else(|| ident.unraw().to_string());
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let p = parse_quote!(#ident);
-- 
2.43.0


From 82dc553ecc8851a1b0a1908df7a75d0610796665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 38/44] fix: stream arguments of a type named S

---
 derive/src/rpc/impl_rpc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index c771023..9219dce 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -126,8 +126,8 @@ pub fn expand_inventory_submit(ns_ident: &Ident, item: &args::RpcItem) -> TokenS
                         #(#args),*
                     ],
                     res: &|| {
-                        fn extract_stream_item<S>(_: impl Fn(&mut #ns_ident, #(#arg_types),*) -> S) -> String where S: #__private::futures::Stream, S::Item: #zod::ZodType {
-                            <S::Item as #zod::ZodType>::type_def().to_string()
+                        fn extract_stream_item<__ZodStream>(_: impl Fn(&mut #ns_ident, #(#arg_types),*) -> __ZodStream) -> String where __ZodStream: #__private::futures::Stream, __ZodStream::Item: #zod::ZodType {
+                            <__ZodStream::Item as #zod::ZodType>::type_def().to_string()
                         }
 
                         extract_stream_item(#ns_ident :: #ident)
-- 
2.43.0


From 7c81602fffb11c4a0c4864607e518b601b3b264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 39/44] fix: generated request enums hid types of the same name

---
 derive/src/rpc/args.rs         | 3 ++-
 derive/src/rpc/backend_impl.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index d5c9412..9527051 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -39,7 +39,8 @@ impl RpcInput {
     }
 
     pub(crate) fn req_ident(&self) -> Ident {
-        format_ident!("{}Req", self.ident)
+        // must not hide a type of the user such as `UserReq`
+        format_ident!("__ZodRequest__{}", self.ident)
     }
 }
 
diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 2bb15bd..e7c83e2 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -9,7 +9,7 @@ use quote::{format_ident, quote, quote_spanned};
 pub fn expand(input: BackendInput, fields: Fields<BackendField>) -> TokenStream {
     let __private = get_private();
     let ident = input.ident;
-    let req_ident = format_ident!("{}Req", ident);
+    let req_ident = format_ident!("__ZodRequest__{}", ident);
 
     let backend_impl = expand_backend_impl(&ident, &req_ident, &fields);
     let req_enum = expand_req_enum(&req_ident, &fields);
@@ -107,6 +107,7 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
     quote! {
 
         #[derive(Debug)]
+        #[allow(non_camel_case_types)]
         enum #ident {
             #(#req_variants),*
         }
-- 
2.43.0


From 73864bc1dbea4cb3aa99de3faddf0ab09ed349db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 40/44] fix: backends with a namespace type named Error

---
 derive/src/rpc/backend_impl.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index e7c83e2..84f32bd 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -117,16 +117,14 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
             fn from_value(
                 value: #__private::serde_json::Value,
             ) -> ::std::result::Result<Self, #__private::serde_json::Error> {
-                use #__private::serde::de::Error;
-
                 let namespace = match value.get("namespace").and_then(|namespace| namespace.as_str()) {
                     ::std::option::Option::Some(namespace) => namespace,
-                    ::std::option::Option::None => return Err(Error::missing_field("namespace")),
+                    ::std::option::Option::None => return Err(#__private::serde::de::Error::missing_field("namespace")),
                 };
 
                 #(#req_dispatch)*
 
-                Err(Error::unknown_variant(namespace, &[#(#names),*]))
+                Err(#__private::serde::de::Error::unknown_variant(namespace, &[#(#names),*]))
             }
         }
     }
-- 
2.43.0


From 713f461883498b4b71bde81b196a640e1dd9721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 41/44] fix: arguments of methods need not implement Debug

---
 derive/src/rpc/backend_impl.rs | 1 -
 derive/src/rpc/impl_rpc.rs     | 1 -
 2 files changed, 2 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index 84f32bd..fa78ba7 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -106,7 +106,6 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
 
     quote! {
 
-        #[derive(Debug)]
         #[allow(non_camel_case_types)]
         enum #ident {
             #(#req_variants),*
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 9219dce..ce73090 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -30,7 +30,6 @@ pub fn expand(input: RpcInput) -> TokenStream {
                 type Req = #req_ident;
             }
 
-            #[derive(Debug)]
             #[allow(non_camel_case_types)]
             #[allow(non_snake_case)]
             #[allow(non_upper_case_globals)]
-- 
2.43.0


From 3922dc3d11620a25ff11588e92f47c80cc790ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:23 +0000
Subject: [PATCH 42/44] fix: attributes of other macros on types and namespaces

---
 derive/src/docs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive/src/docs.rs b/derive/src/docs.rs
index 35a44aa..0f81004 100644
--- a/derive/src/docs.rs
+++ b/derive/src/docs.rs
@@ -10,7 +10,8 @@ pub struct RustDocs {
 impl RustDocs {
     pub fn from_attrs(attrs: &[syn::Attribute]) -> Result<Self, syn::Error> {
         let mut full_docs = String::new();
-        for attr in attrs {
+        // the attributes of other macros may have any syntax
+        for attr in attrs.iter().filter(|attr| attr.path.is_ident("doc")) {
             match attr.parse_meta()? {
                 Meta::NameValue(nv) if nv.path.is_ident("doc") => {
                     if let Lit::Str(doc) = nv.lit {
-- 
2.43.0


From da16303cb70245334d6384be5f9d3ae6d1a2e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:47 +0000
Subject: [PATCH 43/44] fix: namespaces and backends declared by other macros

The generated code mixed the call site of the derive with the position of
tokens a surrounding macro_rules macro passed in, so its own names did
not resolve.
---
 derive/src/rpc/backend_impl.rs | 7 ++++---
 derive/src/rpc/impl_rpc.rs     | 7 ++++---
 derive/src/rpc/mod.rs          | 6 ++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/derive/src/rpc/backend_impl.rs b/derive/src/rpc/backend_impl.rs
index fa78ba7..63f52fd 100644
--- a/derive/src/rpc/backend_impl.rs
+++ b/derive/src/rpc/backend_impl.rs
@@ -3,6 +3,7 @@ use proc_macro2::TokenStream;
 use syn::{spanned::Spanned, Ident};
 
 use crate::rpc::args::{BackendField, BackendInput};
+use crate::rpc::resolved_here;
 use crate::{get_private, get_zod};
 use quote::{format_ident, quote, quote_spanned};
 
@@ -97,7 +98,7 @@ pub fn expand_req_enum(ident: &Ident, fields: &Fields<BackendField>) -> TokenStr
         let ty = &f.ty;
         let variant_ident = variant_ident(index);
         quote_spanned! {
-            ty.span() =>
+            resolved_here(ty.span()) =>
             if namespace == <#ty as #zod::Namespace>::NAME {
                 return #__private::serde_json::from_value(value).map(Self::#variant_ident);
             }
@@ -144,11 +145,11 @@ pub fn expand_req_enum_impl(
             quote!(#index)
         });
 
-        quote_spanned!(ty.span() => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender).await)
+        quote_spanned!(resolved_here(ty.span()) => #req_ident :: #variant_ident(req) => req.call(id, &mut backend.#field_or_index, sender).await)
     });
 
     quote_spanned! {
-        req_ident.span() =>
+        resolved_here(req_ident.span()) =>
         impl #req_ident {
             pub async fn call(
                 self,
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index ce73090..2fe0335 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -5,6 +5,7 @@ use quote::{quote, quote_spanned};
 use syn::{ext::IdentExt, Ident, Type};
 
 use crate::rpc::args::{self, RpcArg, RpcInput, RpcItemKind};
+use crate::rpc::resolved_here;
 use crate::{get_private, get_private_spanned, get_zod};
 
 pub fn expand(input: RpcInput) -> TokenStream {
@@ -24,7 +25,7 @@ pub fn expand(input: RpcInput) -> TokenStream {
         .map(|item| expand_inventory_submit(&ident, item));
 
     quote_spanned! {
-        ident.span() =>
+        resolved_here(ident.span()) =>
         const _: () = {
             impl #__private::codegen::RpcNamespace for #ident {
                 type Req = #req_ident;
@@ -211,7 +212,7 @@ pub fn expand_req_variant_impl_method(
     let __private = get_private();
 
     quote_spanned! {
-        ident.span() =>
+        resolved_here(ident.span()) =>
         let res = ctx.#ident(#(#expanded_args),*).await;
 
         // the client may be gone in the meantime
@@ -230,7 +231,7 @@ pub fn expand_req_variant_impl_stream(
 ) -> TokenStream {
     let __private = get_private_spanned(ident.span());
 
-    quote_spanned! { ident.span() =>
+    quote_spanned! { resolved_here(ident.span()) =>
             let s = ctx.#ident(#(#expanded_args),*);
 
             Some(#__private::tokio::spawn(async move {
diff --git a/derive/src/rpc/mod.rs b/derive/src/rpc/mod.rs
index 8f575f5..70c75d6 100644
--- a/derive/src/rpc/mod.rs
+++ b/derive/src/rpc/mod.rs
@@ -1,3 +1,9 @@
 pub mod args;
 pub mod backend_impl;
 pub mod impl_rpc;
+
+/// A position for error messages. The names in the generated code refer to each other even if the
+/// position is inside of another macro.
+fn resolved_here(span: proc_macro2::Span) -> proc_macro2::Span {
+    span.resolved_at(proc_macro2::Span::call_site())
+}
-- 
2.43.0


From 98e8355de20596d9ec5a122362dbdf25386c9df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 44/44] fix: methods of namespaces that are configured away

The generated code called methods with a #[cfg(..)] attribute whether
they exist or not.
---
 derive/src/rpc/args.rs     | 10 +++++++++-
 derive/src/rpc/impl_rpc.rs | 23 ++++++++++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/derive/src/rpc/args.rs b/derive/src/rpc/args.rs
index 9527051..81da185 100644
--- a/derive/src/rpc/args.rs
+++ b/derive/src/rpc/args.rs
@@ -1,7 +1,7 @@
 use darling::{ast::Data, FromDeriveInput, FromField};
 use proc_macro_error::{abort, abort_call_site};
 use quote::format_ident;
-use syn::{ext::IdentExt, parse_quote, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
+use syn::{ext::IdentExt, parse_quote, Attribute, Ident, ImplItem, ImplItemMethod, ItemImpl, Type};
 
 #[derive(FromDeriveInput)]
 pub struct BackendInput {
@@ -46,6 +46,8 @@ impl RpcInput {
 
 pub struct RpcItem {
     pub ident: syn::Ident,
+    /// `#[cfg(..)]` attributes: what is generated for the method depends on them as well
+    pub cfgs: Vec<Attribute>,
     pub arg_types: Vec<RpcArg>,
     pub kind: RpcItemKind,
     pub output: Box<Type>,
@@ -58,6 +60,11 @@ pub struct RpcArg {
 
 impl RpcItem {
     pub fn from_ast(ast: ImplItemMethod) -> Self {
+        let cfgs = ast
+            .attrs
+            .into_iter()
+            .filter(|attr| attr.path.is_ident("cfg"))
+            .collect();
         let sig = ast.sig;
         let ident = sig.ident;
         let is_async = sig.asyncness.is_some();
@@ -132,6 +139,7 @@ impl RpcItem {
 
         Self {
             ident,
+            cfgs,
             arg_types,
             kind,
             output,
diff --git a/derive/src/rpc/impl_rpc.rs b/derive/src/rpc/impl_rpc.rs
index 2fe0335..2608cae 100644
--- a/derive/src/rpc/impl_rpc.rs
+++ b/derive/src/rpc/impl_rpc.rs
@@ -15,14 +15,19 @@ pub fn expand(input: RpcInput) -> TokenStream {
     let ident = input.ident;
 
     let req_variant_defs = input.items.iter().map(expand_req_variant_decl);
-    let req_variant_names = input.items.iter().map(method_name);
+    let req_variant_names = input.items.iter().map(|item| {
+        let cfgs = &item.cfgs;
+        let name = method_name(item);
+        quote!(#(#cfgs)* #name)
+    });
     let req_variant_dispatch = input.items.iter().map(expand_req_variant_dispatch);
     let req_variant_impls = input.items.iter().map(expand_req_variant_impl);
 
-    let inventory_submits = input
-        .items
-        .iter()
-        .map(|item| expand_inventory_submit(&ident, item));
+    let inventory_submits = input.items.iter().map(|item| {
+        let cfgs = &item.cfgs;
+        let submit = expand_inventory_submit(&ident, item);
+        quote!(#(#cfgs)* #submit)
+    });
 
     quote_spanned! {
         resolved_here(ident.span()) =>
@@ -158,8 +163,10 @@ fn expand_req_variant_dispatch(item: &args::RpcItem) -> TokenStream {
     let __private = get_private();
     let ident = &item.ident;
     let name = method_name(item);
+    let cfgs = &item.cfgs;
 
     quote! {
+        #(#cfgs)*
         ::std::option::Option::Some(#name) => #__private::serde_json::from_value(args?)
             .map(|args| Self::#ident { args })
             .map_err(D::Error::custom),
@@ -168,16 +175,19 @@ fn expand_req_variant_dispatch(item: &args::RpcItem) -> TokenStream {
 
 pub fn expand_req_variant_decl(item: &args::RpcItem) -> TokenStream {
     let ident = &item.ident;
+    let cfgs = &item.cfgs;
     let arg_types = item.arg_types.iter().map(|RpcArg { ty, .. }| quote!(#ty,));
 
     if item.arg_types.is_empty() {
         // `()` is represented as `null` but clients send an empty array
         return quote! {
+            #(#cfgs)*
             #ident { args: [(); 0] }
         };
     }
 
     quote! {
+        #(#cfgs)*
         #ident { args: (#(#arg_types)*) }
     }
 }
@@ -198,7 +208,10 @@ pub fn expand_req_variant_impl(input: &args::RpcItem) -> TokenStream {
         RpcItemKind::Stream => expand_req_variant_impl_stream(ident, expanded_args),
     };
 
+    let cfgs = &input.cfgs;
+
     quote! {
+        #(#cfgs)*
         Self::#ident { args } => {
             #inner
         }
-- 
2.43.0

