From 3237467063b5349591b0dd1229ff9a21018af6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:40 +0000
Subject: [PATCH 01/34] fix: verify_schemas misses dangling links inside
 inlined models

The traversal stopped at `ModelReference::Inline`, so a link to a missing
schema was only found when it was a direct property, item or alternative of
a named component.
---
 opg/src/models.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index a761c3e..24a657b 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -1045,7 +1045,8 @@ impl ModelReference {
     fn traverse<'a>(&'a self, mut cx: TraverseContext<'a>) -> Result<(), &'a str> {
         match &self {
             ModelReference::Link(ref link) => cx.check(link),
-            _ => Ok(()),
+            ModelReference::Inline(model) => model.traverse(cx),
+            ModelReference::Any => Ok(()),
         }
     }
 }
-- 
2.43.0


From 14c40104c24a7aed06e267e9884dfb8d7acfc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:41 +0000
Subject: [PATCH 02/34] fix: stack overflow when mentioning a recursive type

The name of a schema was registered only after the schema had been built, so
a type that refers to itself (directly or through other types) recursed
without end.
---
 opg/src/models.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 24a657b..6dcf8c9 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -540,6 +540,14 @@ impl Components {
         let reference = M::select_reference(self, inline, params);
         if let ModelReference::Link(link) = &reference {
             if !self.schemas.contains_key(link) {
+                // Reserve the name first, so a recursive type finds itself already mentioned
+                self.schemas.insert(
+                    link.to_owned(),
+                    Model {
+                        description: None,
+                        data: ModelOneOf::default().into(),
+                    },
+                );
                 let structure = M::get_schema(self);
                 self.schemas.insert(link.to_owned(), structure);
             }
-- 
2.43.0


From 48aa2ab64ff99951dac5adbb5f2ce51e5daa252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 03/34] fix: nullability of Option<T> leaks into the shared
 schema of T

`Option<T>` and `T` link to the same component. If the option was mentioned
first, the component became nullable for every user of `T`; if it was
mentioned second, `null` was not allowed at all. Keep the component as the
schema of `T` and describe the option as the link or `null`.
---
 opg/src/macros.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 3657741..e6b0a44 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -180,6 +180,26 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                let reference = cx.mention_schema::<T>(inline, &$crate::ContextParams {
+                    description: params.description.clone(),
+                    nullable: params.nullable.or(Some(true)),
+                    variants: params.variants.clone(),
+                    format: params.format.clone(),
+                    example: params.example.clone(),
+                });
+                match reference {
+                    // `$ref` can't have siblings, so add `null` as an alternative
+                    link @ $crate::ModelReference::Link(_) => $crate::ModelReference::Inline($crate::Model {
+                        description: params.description.clone(),
+                        data: $crate::ModelData::AnyOf($crate::ModelAnyOf {
+                            any_of: vec![link, cx.mention_schema::<()>(false, &Default::default())],
+                        }),
+                    }),
+                    reference => reference,
+                }
+            }
         }
     };
 
@@ -196,6 +216,11 @@ macro_rules! impl_opg_model (
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
                 <T as $crate::OpgModel>::type_name()
             }
+
+            #[inline]
+            fn select_reference(cx: &mut $crate::Components, inline: bool, params: &$crate::ContextParams) -> $crate::ModelReference {
+                <T as $crate::OpgModel>::select_reference(cx, inline, params)
+            }
         }
     };
 
-- 
2.43.0


From 4514794144c74de3ecce2a549e8e06b5d7b7cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 04/34] fix: struct variants of adjacently tagged enums are
 described as arrays

serde serializes their content as an object.
---
 opg_derive/src/opg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b77129c..18dce53 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -213,7 +213,7 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| variant.attrs.inline || field.attrs.inline,
                     )),
-                    StructStyle::Struct => inline_reference(tuple_model(
+                    StructStyle::Struct => inline_reference(object_model(
                         false,
                         &variant.attrs.description,
                         &variant.fields,
-- 
2.43.0


From 1d1dd4ef0d0bd5659415d4f56e29ffd4839afeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:34 +0000
Subject: [PATCH 05/34] fix: unit variants of internally and adjacently tagged
 enums

An enum with unit variants only was described as a plain string although
serde serializes it as an object with the tag, and an adjacently tagged enum
with a unit variant among others panicked in the derive macro.
---
 opg_derive/src/attr.rs |  4 +++-
 opg_derive/src/opg.rs  | 38 ++++++++++++++++++++++++++++----------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index cf406c5..d2e6194 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -502,7 +502,9 @@ fn decide_model_type(
                         );
                         Err(())
                     }
-                    _ => Ok(ModelType::NewType),
+                    TagType::External => Ok(ModelType::NewType),
+                    TagType::Internal { .. } => Ok(ModelType::OneOf),
+                    TagType::Adjacent { .. } => Ok(ModelType::Object),
                 };
             }
 
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 18dce53..960a122 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -201,6 +201,11 @@ fn serialize_adjacent_tagged_enum(
                 let variant_name = variant.attrs.name.serialized();
 
                 let type_description = match &variant.style {
+                    // has no content
+                    StructStyle::Unit => {
+                        variants.push(variant_name);
+                        return (variants, one_of);
+                    }
                     StructStyle::NewType => {
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
@@ -219,7 +224,6 @@ fn serialize_adjacent_tagged_enum(
                         &variant.fields,
                         |field| field.attrs.inline || variant.attrs.inline,
                     )),
-                    _ => unreachable!(),
                 };
 
                 variants.push(variant_name);
@@ -228,6 +232,28 @@ fn serialize_adjacent_tagged_enum(
             },
         );
 
+    let push_required_content = if one_of.len() == variants.len() {
+        quote!( required.push(#content.to_owned()); )
+    } else {
+        quote!()
+    };
+
+    let content_property = if one_of.is_empty() {
+        quote!()
+    } else {
+        quote! {
+            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
+                _opg::Model {
+                    description: #description,
+                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
+                        one_of: vec![#(#one_of),*],
+                    })
+                }
+            ));
+            #push_required_content
+        }
+    };
+
     let type_example = option_string(variants.first().map(|x| x.as_str()));
     let type_name_stringified = container.ident.to_string();
 
@@ -253,15 +279,7 @@ fn serialize_adjacent_tagged_enum(
             ));
             required.push(#tag.to_owned());
 
-            properties.insert(#content.to_owned(), _opg::ModelReference::Inline(
-                _opg::Model {
-                    description: #description,
-                    data: _opg::ModelData::OneOf(_opg::ModelOneOf {
-                        one_of: vec![#(#one_of),*],
-                    })
-                }
-            ));
-            required.push(#content.to_owned());
+            #content_property
 
             _opg::ModelTypeDescription::Object(
                 _opg::ModelObject {
-- 
2.43.0


From 5a4fe6d8b510584b1d9ae6755bf41c8b2d66ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:35 +0000
Subject: [PATCH 06/34] fix: one-element tuples are described as their element

serde serializes them as arrays, like any other tuple.
---
 opg/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 41d1b77..4ba08a8 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -53,7 +53,7 @@ impl_opg_model!(generic_simple(?Sized): std::cell::RefCell<T>);
 
 impl_opg_model!(generic_simple(nullable): Option<T>);
 
-impl_opg_model!(generic_simple: (T,));
+impl_opg_model!(generic_array: (T,));
 
 impl_opg_model!(generic_tuple: (T1, T2));
 impl_opg_model!(generic_tuple: (T1, T2, T3));
-- 
2.43.0


From f4645eaf473ecd06f5fb5164c8df4645dbd11bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:36 +0000
Subject: [PATCH 07/34] fix: paths of callbacks named by a literal are lost

The rule expanded the callbacks that follow instead of its own paths.
---
 opg/src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index e6b0a44..e6adf3b 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -631,9 +631,9 @@ macro_rules! describe_api {
     };
     (@opg_path_value_body_properties $result:ident $description:ident $required:ident $schema:ident $(,)?) => {};
 
-    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($operations:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($other)*,);
+    (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
+        let mut callback_object = $crate::models::CallbackObject::default();
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From bb35a7b012d6b1199a57d175a4a04cb0a3e05862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:37 +0000
Subject: [PATCH 08/34] fix: security schemes given as variables do not compile
 in describe_api

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index e6adf3b..508fc5c 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -395,7 +395,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_security_scheme $result $($schemes)*,)
     };
     (@opg_security_scheme $result:ident $scheme:ident, $($other:tt)*) => {
-        $result.components.security_schemes.insert(stringity!($scheme).to_owned(), $scheme);
+        $result.components.security_schemes.insert(stringify!($scheme).to_owned(), $scheme.clone().into());
         $crate::describe_api!(@opg_security_scheme $result $($other)*)
     };
     (@opg_security_scheme $result:ident (http $name:literal): {$($properties:tt)+}, $($other:tt)*) => {
-- 
2.43.0


From d35fb71ee8d39b51896b01d073c2455691f5927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:38 +0000
Subject: [PATCH 09/34] fix: security requirements with roles do not compile in
 describe_api

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 508fc5c..5bec641 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -610,10 +610,10 @@ macro_rules! describe_api {
 
 
     (@opg_path_value_security_item $result:ident $context:ident $security:literal$([$($role:literal),*])?) => {
-        $context.insert($security.to_owned(), vec![$($($role),*)?])
+        $context.insert($security.to_owned(), vec![$($($role.to_owned()),*)?])
     };
     (@opg_path_value_security_item $result:ident $context:ident $security:ident$([$($role:literal),*])?) => {
-        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role),*)?])
+        $context.insert($result.components.mention_security_scheme(stringify!($security).to_owned(), &$security), vec![$($($role.to_owned()),*)?])
     };
 
 
-- 
2.43.0


From 2e94e21231d30c589117161ea9053950c24fbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:39 +0000
Subject: [PATCH 10/34] fix: request body without description is serialized
 with a null description

---
 opg/src/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 6dcf8c9..1fe08e0 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -346,6 +346,7 @@ impl Serialize for RequestBody {
         struct RequestBodyHelper<'a> {
             #[serde(skip_serializing_if = "is_false")]
             required: bool,
+            #[serde(skip_serializing_if = "Option::is_none")]
             description: &'a Option<String>,
             content: ResponseContent<'a>,
         }
-- 
2.43.0


From 5ae0aed09bf341a87dc6919f977d924e4ba0587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 11/34] fix: #[opg(nullable)] is ignored on newtype structs

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 960a122..5ca0aa0 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -892,6 +892,7 @@ impl<'a> ContextParams<'a> {
     {
         let other = other.into();
         self.description = self.description.or(other.description);
+        self.nullable = self.nullable.or(other.nullable);
         self.format = self.format.or(other.format);
         self.example = self.example.or(other.example);
         self
-- 
2.43.0


From 70953626e481e4393558fa9b55a7b44f90348b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:23 +0000
Subject: [PATCH 12/34] fix: skipped fields of tuples appear in the schema

---
 opg_derive/src/opg.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 5ca0aa0..b32f9fd 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -612,6 +612,7 @@ where
 {
     let data = fields
         .iter()
+        .filter(|field| !field.attrs.skip_serializing)
         .map(|field| {
             field_model_reference(
                 ContextParams::from(&field.attrs),
-- 
2.43.0


From 641ee94f74470aa4f3f693fcece158fea20edca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:24 +0000
Subject: [PATCH 13/34] fix: repr enums lose implicit discriminants and
 misprint computed ones

Variants without an explicit discriminant were dropped, which left an empty
oneOf, and the example was the source text of the discriminant (`- 5`,
`1 + 2`) instead of the number that is serialized.
---
 opg_derive/src/opg.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index b32f9fd..a99dc84 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -80,17 +80,17 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .filter(|variant| !variant.attrs.skip_serializing)
-            .filter_map(|variant| {
-                variant
-                    .original
-                    .discriminant
-                    .as_ref()
-                    .map(|(_, discriminant)| (variant.attrs.name.serialized(), discriminant))
+            .enumerate()
+            .filter(|(_, variant)| !variant.attrs.skip_serializing)
+            .map(|(i, variant)| {
+                let discriminant = match &variant.original.discriminant {
+                    Some((_, discriminant)) => quote!( #discriminant ),
+                    None => quote!( #i ),
+                };
+                (variant.attrs.name.serialized(), discriminant)
             })
             .map(|(name, discriminant)| {
                 let description = format!("{} variant", name);
-                let example = quote::ToTokens::to_token_stream(discriminant).to_string();
 
                 quote! {
                     _opg::Model {
@@ -99,7 +99,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(#example.to_owned()),
+                                example: Some(((#discriminant) as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0


From 869b3edb169773220ba621c76185b8d4c7c1b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 14/34] fix: #[serde(transparent)] is ignored on structs with
 named fields

serde serializes such a struct as its only field.
---
 opg_derive/src/opg.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index a99dc84..6b619b4 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -50,6 +50,13 @@ fn build_generics(cont: &Container) -> syn::Generics {
 fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
+        Data::Struct(_, fields) if container.attrs.transparent => {
+            let mut fields = fields.iter().filter(|field| !field.attrs.skip_serializing);
+            match (fields.next(), fields.next()) {
+                (Some(field), None) => serialize_newtype_struct(container, field),
+                _ => unimplemented!(),
+            }
+        }
         Data::Struct(StructStyle::Struct, fields) => serialize_struct(container, fields),
         Data::Struct(StructStyle::Tuple, fields) => serialize_tuple_struct(container, fields),
         Data::Struct(StructStyle::NewType, fields) => {
-- 
2.43.0


From 0c2d085b8b6d90403ba7963f2269cfbe61aeabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:27 +0000
Subject: [PATCH 15/34] fix: raw identifiers keep the `r#` prefix in schema
 names

`#` is not allowed in the name of a component and breaks its `$ref`.
---
 opg_derive/src/opg.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 6b619b4..f243cd6 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -262,7 +262,7 @@ fn serialize_adjacent_tagged_enum(
     };
 
     let type_example = option_string(variants.first().map(|x| x.as_str()));
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let struct_type_description = quote! {
         {
@@ -412,7 +412,7 @@ fn serialize_internal_tagged_enum(
     let description = option_string(container.attrs.description.as_deref());
     let nullable = container.attrs.nullable;
 
-    let type_name_stringified = container.ident.to_string();
+    let type_name_stringified = dummy::unraw(&container.ident);
 
     let one_of = variants
         .iter()
@@ -802,6 +802,8 @@ fn implement_type(
     body: proc_macro2::TokenStream,
     inline: bool,
 ) -> proc_macro2::TokenStream {
+    let type_name = dummy::unraw(type_name);
+
     let inline = if inline {
         quote! {
             #[inline]
@@ -818,7 +820,7 @@ fn implement_type(
         quote! {
             #[inline]
             fn type_name() -> Option<std::borrow::Cow<'static, str>> {
-                Some(stringify!(#type_name).into())
+                Some(#type_name.into())
             }
         }
     };
-- 
2.43.0


From 390642c898082f5149dad92e24259f74e3836226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:28 +0000
Subject: [PATCH 16/34] fix: date-times are declared with the full-date format

Neither the values nor the example of the schema itself are dates.
---
 opg/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/lib.rs b/opg/src/lib.rs
index 4ba08a8..93b4b06 100644
--- a/opg/src/lib.rs
+++ b/opg/src/lib.rs
@@ -184,7 +184,7 @@ impl OpgModel for chrono::NaiveDateTime {
                 type_description: ModelTypeDescription::String(ModelString {
                     variants: None,
                     data: ModelSimple {
-                        format: Some("date".to_owned()),
+                        format: Some("date-time".to_owned()),
                         example: Some("2020-06-26T14:04:20.730045106".to_owned()),
                     },
                 }),
@@ -213,7 +213,7 @@ impl<TZ: chrono::TimeZone> OpgModel for chrono::DateTime<TZ> {
                 type_description: ModelTypeDescription::String(ModelString {
                     variants: None,
                     data: ModelSimple {
-                        format: Some("date".to_owned()),
+                        format: Some("date-time".to_owned()),
                         example: Some("2020-06-26T14:04:20.730045106Z".to_owned()),
                     },
                 }),
-- 
2.43.0


From 12c2a35ab4934b8ffcf030be4ebdabc925926e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:20 +0000
Subject: [PATCH 17/34] fix: #[opg(inline)] is ignored on the field of a
 newtype variant

Fields of tuple and struct variants honour it.
---
 opg_derive/src/opg.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index f243cd6..2a4bcdc 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -166,7 +166,11 @@ fn serialize_untagged_enum(
                 let field = &variant.fields[0];
                 let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                field_model_reference(context_params, field, variant.attrs.inline)
+                field_model_reference(
+                    context_params,
+                    field,
+                    variant.attrs.inline || field.attrs.inline,
+                )
             }
             StructStyle::Struct => inline_reference(object_model(
                 false,
@@ -217,7 +221,11 @@ fn serialize_adjacent_tagged_enum(
                         let field = &variant.fields[0];
                         let context_params = ContextParams::from(&field.attrs).or(&variant.attrs);
 
-                        field_model_reference(context_params, field, variant.attrs.inline)
+                        field_model_reference(
+                            context_params,
+                            field,
+                            variant.attrs.inline || field.attrs.inline,
+                        )
                     }
                     StructStyle::Tuple => inline_reference(tuple_model(
                         false,
@@ -355,7 +363,7 @@ fn serialize_external_tagged_enum(
                         field_model_reference(
                             context_params,
                             field,
-                            variant.attrs.inline,
+                            variant.attrs.inline || field.attrs.inline,
                         )
                     },
                     StructStyle::Tuple => {
-- 
2.43.0


From 62a82198484c55470c1ffda15cbd2382542f89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:57 +0000
Subject: [PATCH 18/34] fix: nullable, format and example are ignored on
 unit-only enums

---
 opg_derive/src/opg.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 2a4bcdc..2dd6f1a 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -130,17 +130,22 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
             .map(|variant| variant.attrs.name.serialized())
             .collect::<Vec<_>>();
 
-        let example = option_string(variants.first().map(|x| x.as_str()));
+        let nullable = container.attrs.nullable;
+        let format = option_string(container.attrs.format.as_deref());
+        let example = match &container.attrs.example {
+            Some(example) => option_to_string_expr(Some(example)),
+            None => option_string(variants.first().map(|x| x.as_str())),
+        };
 
         quote! {
             _opg::Model {
                 description: #description,
                 data: _opg::ModelData::Single(_opg::ModelType {
-                    nullable: false,
+                    nullable: #nullable,
                     type_description: _opg::ModelTypeDescription::String(_opg::ModelString {
                         variants: Some(vec![#(#variants.to_owned()),*]),
                         data: _opg::ModelSimple {
-                            format: None,
+                            format: #format,
                             example: #example,
                         }
                     })
-- 
2.43.0


From 5d0f6a5f8a7bc071335ffe71e8bf08200b65be1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:58 +0000
Subject: [PATCH 19/34] fix: explicit type is ignored on the field of a newtype
 struct

---
 opg_derive/src/opg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 2dd6f1a..29a19ff 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -553,10 +553,15 @@ fn serialize_newtype_struct(container: &Container, field: &Field) -> proc_macro2
 
     let context_params = ContextParams::from(&field.attrs).or(&container.attrs);
 
-    let body = match container.attrs.explicit_model_type {
+    let explicit_model_type = match field.attrs.explicit_model_type {
+        Some(ExplicitModelType::Any) | None => container.attrs.explicit_model_type,
+        explicit_model_type => explicit_model_type,
+    };
+
+    let body = match explicit_model_type {
         Some(explicit_model_type) if explicit_model_type != ExplicitModelType::Any => {
             newtype_model(
-                container.attrs.nullable,
+                container.attrs.nullable || field.attrs.nullable,
                 context_params,
                 explicit_model_type,
             )
-- 
2.43.0


From 59fb5f0b4691dd6169cb354e59c64ac841351a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:24 +0000
Subject: [PATCH 20/34] fix: internally tagged newtype variants of enums lose
 their tag

---
 opg_derive/src/opg.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 29a19ff..96f3fab 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -484,13 +484,30 @@ fn serialize_internal_tagged_enum(
                         })
                     };
 
-                    let _ = model.try_merge(_opg::Model {
+                    let additional_object = _opg::Model {
                         description: None,
                         data: _opg::ModelData::Single(_opg::ModelType {
                             nullable: #nullable,
                             type_description: additional_object
                         })
-                    });
+                    };
+
+                    let model = match &model.data {
+                        _opg::ModelData::Single(_) => {
+                            let _ = model.try_merge(additional_object);
+                            model
+                        }
+                        // alternatives have no properties of their own to add the tag to
+                        _ => _opg::Model {
+                            description: None,
+                            data: _opg::ModelData::AllOf(_opg::ModelAllOf {
+                                all_of: vec![
+                                    _opg::ModelReference::Inline(model),
+                                    _opg::ModelReference::Inline(additional_object),
+                                ],
+                            }),
+                        },
+                    };
 
                     _opg::ModelReference::Inline(model)
                 }
-- 
2.43.0


From 2919fc83a48afec1ace86522c299413a6db241cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:56 +0000
Subject: [PATCH 21/34] fix: several repr hints are rejected as a duplicate
 attribute

---
 opg_derive/src/attr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index d2e6194..9e36159 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -149,7 +149,9 @@ impl Container {
                     );
                 }
                 (AttrFrom::Repr, item) => {
-                    has_repr.set_true(item);
+                    if !has_repr.get() {
+                        has_repr.set_true(item);
+                    }
                 }
             }
         }
-- 
2.43.0


From 9e310afaeae3ad8d77e297d595743f939aa31625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:52 +0000
Subject: [PATCH 22/34] fix: computed discriminants beyond i32 do not compile

The discriminant expression was evaluated on its own, so its literals
fell back to i32; casting the variant uses the type of the repr.
---
 opg_derive/src/opg.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 96f3fab..944a16f 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -87,17 +87,10 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
     let body = if container.attrs.has_repr {
         let variants = variants
             .iter()
-            .enumerate()
-            .filter(|(_, variant)| !variant.attrs.skip_serializing)
-            .map(|(i, variant)| {
-                let discriminant = match &variant.original.discriminant {
-                    Some((_, discriminant)) => quote!( #discriminant ),
-                    None => quote!( #i ),
-                };
-                (variant.attrs.name.serialized(), discriminant)
-            })
-            .map(|(name, discriminant)| {
-                let description = format!("{} variant", name);
+            .filter(|variant| !variant.attrs.skip_serializing)
+            .map(|variant| {
+                let ident = &variant.original.ident;
+                let description = format!("{} variant", variant.attrs.name.serialized());
 
                 quote! {
                     _opg::Model {
@@ -106,7 +99,7 @@ fn serialize_newtype_enum(container: &Container, variants: &[Variant]) -> proc_m
                             nullable: false,
                             type_description: _opg::ModelTypeDescription::Integer(_opg::ModelSimple {
                                 format: None,
-                                example: Some(((#discriminant) as i128).to_string()),
+                                example: Some((Self::#ident as i128).to_string()),
                             })
                         }),
                     }
-- 
2.43.0


From d3ace7604e29bb56e5c8590c2cb15da7f83a17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 23/34] fix: describe_api without sections does not compile

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 5bec641..daf0c24 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -357,7 +357,7 @@ macro_rules! impl_opg_model (
 macro_rules! describe_api {
     ($($property:ident: {$($property_value:tt)*}),*$(,)?) => {{
         let mut result = $crate::models::Opg::default();
-        $($crate::describe_api!(@opg_property result $property $($property_value)*));+;
+        $($crate::describe_api!(@opg_property result $property $($property_value)*);)*
         result
     }};
 
-- 
2.43.0


From 84fea812921a8723fb5a9d62bb71b68792c95230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:37 +0000
Subject: [PATCH 24/34] fix: trailing comma after callback paths does not
 compile

---
 opg/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index daf0c24..c9efe6e 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -633,14 +633,14 @@ macro_rules! describe_api {
 
     (@opg_path_value_callbacks $result:ident $context:ident $callback:literal: { $($paths:tt)* }, $($other:tt)*) => {
         let mut callback_object = $crate::models::CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*);
         $context.callbacks.insert($callback.to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
         let mut callback_object = CallbackObject::default();
-        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*,);
+        $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
-- 
2.43.0


From 6eab5bd9d2f665de93b7e5318ddb29d733b76ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:57 +0000
Subject: [PATCH 25/34] fix: callbacks named by an identifier need
 CallbackObject in scope

---
 opg/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index c9efe6e..9e6cf5d 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -639,7 +639,7 @@ macro_rules! describe_api {
         $crate::describe_api!(@opg_path_value_callbacks $result $context $($other)*)
     };
     (@opg_path_value_callbacks $result:ident $context:ident $callback:ident: { $($paths:tt)* }, $($other:tt)*) => {
-        let mut callback_object = CallbackObject::default();
+        let mut callback_object = $crate::models::CallbackObject::default();
         $crate::describe_api!(@opg_path_value_callbacks_paths $result callback_object $($paths)*);
         $context.callbacks.insert(stringify!($callback).to_owned(), callback_object);
 
-- 
2.43.0


From 84c8ba56dbea49dc82f7f4b177331a5f11ea46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:17 +0000
Subject: [PATCH 26/34] fix: unnamed path placeholders of types with non-ASCII
 names panic

---
 opg/src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 9e6cf5d..8a69e9b 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -745,7 +745,9 @@ macro_rules! describe_api {
             let name = {
                 let full_name = stringify!($current);
                 let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
-                name[..1].to_ascii_lowercase() + &name[1..]
+                let mut chars = name.chars();
+                let first: String = chars.next().into_iter().flat_map(char::to_lowercase).collect();
+                first + chars.as_str()
             };
             $crate::describe_api!(@opg_path_insert_url_param $result $context name $current)
         });
-- 
2.43.0


From 8255e042dc15142ade201212fa5973a88343da67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:13 +0000
Subject: [PATCH 27/34] fix: documents without paths lack the required paths
 object

---
 opg/src/models.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/opg/src/models.rs b/opg/src/models.rs
index 1fe08e0..60e0886 100644
--- a/opg/src/models.rs
+++ b/opg/src/models.rs
@@ -29,10 +29,7 @@ pub struct Opg {
     pub servers: Vec<Server>,
 
     /// The available paths and operations for the API
-    #[serde(
-        serialize_with = "serialize_ordered_entries",
-        skip_serializing_if = "Vec::is_empty"
-    )]
+    #[serde(serialize_with = "serialize_ordered_entries")]
     pub paths: Vec<(Path, PathValue)>,
 
     /// An element to hold various schemas for the specification
-- 
2.43.0


From 319ddb716161ce2312200a00a37f69663fd79ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 28/34] fix: reject descriptions that are not strings

---
 opg_derive/src/attr.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index 9e36159..e3aa78a 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -110,6 +110,8 @@ impl Container {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -240,6 +242,8 @@ impl Variant {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
@@ -365,6 +369,8 @@ impl Field {
                 (AttrFrom::Opg, Lit(lit)) => {
                     if let Ok(s) = get_lit_str_simple(lit) {
                         description.set(lit, s.value().clone());
+                    } else {
+                        cx.error_spanned_by(lit, "expected description to be a string");
                     }
                 }
                 (AttrFrom::Opg, Meta(NameValue(m))) if m.path == FORMAT => {
-- 
2.43.0


From 531c2c830ba080177992d72772cbe86ce2eed4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:55 +0000
Subject: [PATCH 29/34] fix: placeholders of generic types are named after a
 type argument

---
 opg/src/macros.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 8a69e9b..986254b 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -744,7 +744,8 @@ macro_rules! describe_api {
         $path.push({
             let name = {
                 let full_name = stringify!($current);
-                let name = &full_name[full_name.rfind(':').map(|i| i + 1).unwrap_or_default()..];
+                let path = full_name.split('<').next().unwrap_or_default();
+                let name = &full_name[path.rfind(':').map(|i| i + 1).unwrap_or_default()..];
                 let mut chars = name.chars();
                 let first: String = chars.next().into_iter().flat_map(char::to_lowercase).collect();
                 first + chars.as_str()
-- 
2.43.0


From e7b13ab00aee849ef60c63cd8bdf465ab3f25b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:26 +0000
Subject: [PATCH 30/34] fix: #[serde(transparent)] with a PhantomData marker
 makes the derive panic

---
 opg_derive/src/bound.rs | 11 +++++++++++
 opg_derive/src/opg.rs   |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/bound.rs b/opg_derive/src/bound.rs
index 630208f..2516f88 100644
--- a/opg_derive/src/bound.rs
+++ b/opg_derive/src/bound.rs
@@ -133,6 +133,17 @@ pub fn with_bound(
     generics
 }
 
+pub fn is_phantom_data(ty: &syn::Type) -> bool {
+    match ungroup(ty) {
+        syn::Type::Path(ty) => ty
+            .path
+            .segments
+            .last()
+            .map_or(false, |segment| segment.ident == "PhantomData"),
+        _ => false,
+    }
+}
+
 fn ungroup(mut ty: &syn::Type) -> &syn::Type {
     while let syn::Type::Group(group) = ty {
         ty = &group.elem;
diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 944a16f..10e2188 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -51,7 +51,9 @@ fn serialize_body(container: &Container) -> proc_macro2::TokenStream {
     match &container.data {
         Data::Enum(variants) => serialize_enum(container, variants),
         Data::Struct(_, fields) if container.attrs.transparent => {
-            let mut fields = fields.iter().filter(|field| !field.attrs.skip_serializing);
+            let mut fields = fields.iter().filter(|field| {
+                !field.attrs.skip_serializing && !bound::is_phantom_data(&field.original.ty)
+            });
             match (fields.next(), fields.next()) {
                 (Some(field), None) => serialize_newtype_struct(container, field),
                 _ => unimplemented!(),
-- 
2.43.0


From 95c5cc8e278784eaf2781307993cdc0fcd2cc173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:48 +0000
Subject: [PATCH 31/34] fix: skipped field of a newtype variant is described as
 the variant's content

---
 opg_derive/src/ast.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/ast.rs b/opg_derive/src/ast.rs
index 5af4965..bc9c98b 100644
--- a/opg_derive/src/ast.rs
+++ b/opg_derive/src/ast.rs
@@ -123,7 +123,13 @@ fn enum_from_ast<'a>(
             .iter()
             .map(|variant| {
                 let attrs = attr::Variant::from_ast(cx, variant);
-                let (style, fields) = struct_from_ast(cx, &variant.fields);
+                let (style, fields) = match struct_from_ast(cx, &variant.fields) {
+                    // serde writes it as a variant without content
+                    (StructStyle::NewType, fields) if fields[0].attrs.skip_serializing => {
+                        (StructStyle::Unit, Vec::new())
+                    }
+                    other => other,
+                };
                 Variant {
                     ident: variant.ident.clone(),
                     attrs,
-- 
2.43.0


From 8c1502a878834d22853a9d0cfbabb9b8db56cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:25 +0000
Subject: [PATCH 32/34] fix: internally tagged newtype variants of units lose
 their tag

---
 opg_derive/src/opg.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/opg_derive/src/opg.rs b/opg_derive/src/opg.rs
index 10e2188..fc84602 100644
--- a/opg_derive/src/opg.rs
+++ b/opg_derive/src/opg.rs
@@ -488,10 +488,18 @@ fn serialize_internal_tagged_enum(
                     };
 
                     let model = match &model.data {
-                        _opg::ModelData::Single(_) => {
+                        _opg::ModelData::Single(_opg::ModelType {
+                            type_description: _opg::ModelTypeDescription::Object(_),
+                            ..
+                        }) => {
                             let _ = model.try_merge(additional_object);
                             model
                         }
+                        // units have no properties, serde writes just the tag
+                        _opg::ModelData::Single(_) => _opg::Model {
+                            description: model.description,
+                            ..additional_object
+                        },
                         // alternatives have no properties of their own to add the tag to
                         _ => _opg::Model {
                             description: None,
-- 
2.43.0


From 2172c060a6b4b461c35cd36d971a3a504d0dfe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:56 +0000
Subject: [PATCH 33/34] fix: a caller's variable named like an info property is
 shadowed inside describe_api!'s info section

---
 opg/src/macros.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opg/src/macros.rs b/opg/src/macros.rs
index 986254b..c8d5d01 100644
--- a/opg/src/macros.rs
+++ b/opg/src/macros.rs
@@ -363,9 +363,8 @@ macro_rules! describe_api {
 
 
     (@opg_property $result:ident info $($property:ident: $property_value:expr),*$(,)?) => {{
-        $(let $property = $crate::describe_api!(@opg_info_property $property $property_value));*;
         $result.info = $crate::models::Info {
-            $($property,)*
+            $($property: $crate::describe_api!(@opg_info_property $property $property_value),)*
             ..Default::default()
         };
     }};
-- 
2.43.0


From d44939d280e9350786cd42d0fb6c44ac2e1a99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:28 +0000
Subject: [PATCH 34/34] fix: unit enums with repr(C) or repr(align) are
 described as integers

---
 opg_derive/src/attr.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opg_derive/src/attr.rs b/opg_derive/src/attr.rs
index e3aa78a..3e303d4 100644
--- a/opg_derive/src/attr.rs
+++ b/opg_derive/src/attr.rs
@@ -150,11 +150,12 @@ impl Container {
                         format!("unknown opg variant attribute `{}`", path),
                     );
                 }
-                (AttrFrom::Repr, item) => {
+                (AttrFrom::Repr, Meta(Path(word))) if is_integer_type(word) => {
                     if !has_repr.get() {
-                        has_repr.set_true(item);
+                        has_repr.set_true(word);
                     }
                 }
+                (AttrFrom::Repr, _) => {}
             }
         }
 
@@ -693,6 +694,15 @@ fn get_meta_items(
     }
 }
 
+/// Other representations (`C`, `align(..)`) don't make an enum serialized as integer
+fn is_integer_type(path: &syn::Path) -> bool {
+    [
+        "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize",
+    ]
+    .iter()
+    .any(|ty| path.is_ident(ty))
+}
+
 #[derive(Copy, Clone)]
 enum AttrFrom {
     Serde,
-- 
2.43.0

