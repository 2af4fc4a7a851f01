From c29392836146e7b91258dd03215c1830b08f9a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 01/22] fix: describe recursive enums and tuple structs without
 unbounded recursion

---
 crates/mirror-mirror-macros/src/derive_reflect/enum_.rs        | 2 +-
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index d0739c3..0a680da 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -112,8 +112,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let variants = &[#(#code_for_variants),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let variants = &[#(#code_for_variants),*];
                     EnumNode::new::<Self>(variants, #meta, #docs)
                 })
             }
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 07d0893..a9e5bf2 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -70,8 +70,8 @@ fn expand_describe_type(
     quote! {
         impl #impl_generics DescribeType for #ident #type_generics #where_clause {
             fn build(graph: &mut TypeGraph) -> NodeId {
-                let fields = &[#(#code_for_fields),*];
                 graph.get_or_build_node_with::<Self, _>(|graph| {
+                    let fields = &[#(#code_for_fields),*];
                     TupleStructNode::new::<Self>(fields, #meta, #docs)
                 })
             }
-- 
2.43.0


From 7d1835024bb5abc5f08b9a4d787c538915955865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 02/22] fix: index only the reflected fields of tuple structs
 and enum variants

---
 .../src/derive_reflect/enum_.rs               | 28 ++++++++-----------
 .../src/derive_reflect/tuple_struct.rs        | 27 +++++++++++-------
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 0a680da..50921f8 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -153,7 +153,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let set_fields = fields.iter().enumerate().filter(filter_out_skipped).map(
+                    let set_fields = fields.iter().filter(filter_out_skipped).enumerate().map(
                         |(index, field)| {
                             let ident = &field.fake_ident;
                             quote! {
@@ -406,12 +406,15 @@ fn expand_from_reflect(
                 }
             }
             FieldsData::Unnamed(fields) => {
-                let set_fields = fields.iter().enumerate().map(|(idx, field)| {
+                // skipped fields don't have an index
+                let mut reflected_fields = 0_usize..;
+                let set_fields = fields.iter().map(|field| {
                     if field.skip() {
                         quote! {
                             ::core::default::Default::default(),
                         }
                     } else {
+                        let idx = reflected_fields.next();
                         let ty = &field.ty;
                         if let Some(from_reflect_with) = field.from_reflect_with() {
                             quote! {
@@ -630,7 +633,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -649,7 +652,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -694,7 +697,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -713,7 +716,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -870,7 +873,7 @@ fn expand_enum(
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.ident;
                                     quote! {
@@ -889,7 +892,7 @@ fn expand_enum(
                     }
                     FieldsData::Unnamed(fields) => {
                         let return_if_index_matches =
-                            fields.iter().enumerate().filter(filter_out_skipped).map(
+                            fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
                                     let field_name = &field.fake_ident;
                                     quote! {
@@ -1078,15 +1081,6 @@ where
     }
 }
 
-impl<T> Skippable for (usize, T)
-where
-    T: Skippable + ?Sized,
-{
-    fn skip(&self) -> bool {
-        self.1.skip()
-    }
-}
-
 impl Skippable for VariantData<'_> {
     fn skip(&self) -> bool {
         self.attrs.skip
diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index a9e5bf2..056fdb5 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -91,6 +91,7 @@ fn expand_reflect(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
+            .enumerate()
             .map(|(idx, _)| {
                 quote! {
                     if let Some(new_value) = tuple_struct.field_at(#idx) {
@@ -195,6 +196,8 @@ fn expand_from_reflect(
     generics: &Generics<'_>,
 ) -> TokenStream {
     let fn_from_reflect = {
+        // skipped fields don't have an index
+        let mut reflected_fields = 0_usize..;
         let code_for_fields = fields.iter().enumerate().map(|(idx, field)| {
             let field_index = Index {
                 index: idx as u32,
@@ -203,27 +206,29 @@ fn expand_from_reflect(
             let ty = &field.ty;
             let span = ty.span();
             if field_attrs.skip(&idx) {
-                quote_spanned! {span=>
+                return quote_spanned! {span=>
                     #field_index: ::core::default::Default::default(),
-                }
-            } else if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
+                };
+            }
+            let reflected_idx = reflected_fields.next();
+            if let Some(from_reflect_with) = field_attrs.from_reflect_with(&idx) {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflected_idx)?;
                         #from_reflect_with(value)?
                     }
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflected_idx)?;
                         <#ty as FromReflect>::from_reflect(value)?
                     },
                 }
             } else {
                 quote_spanned! {span=>
                     #field_index: {
-                        let value = tuple_struct.field_at(#field_index)?;
+                        let value = tuple_struct.field_at(#reflected_idx)?;
                         if let Some(value) = value.downcast_ref::<#ty>() {
                             value.to_owned()
                         } else {
@@ -269,13 +274,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflected_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect()),
+                    #reflected_idx => Some(self.#field_index.as_reflect()),
                 }
             });
 
@@ -294,13 +300,14 @@ fn expand_tuple_struct(
             .iter()
             .enumerate()
             .filter(field_attrs.filter_out_skipped_unnamed())
-            .map(|(idx, field)| {
+            .enumerate()
+            .map(|(reflected_idx, (idx, field))| {
                 let field_index = Index {
                     index: idx as u32,
                     span: field.span(),
                 };
                 quote! {
-                    #idx => Some(self.#field_index.as_reflect_mut()),
+                    #reflected_idx => Some(self.#field_index.as_reflect_mut()),
                 }
             });
 
-- 
2.43.0


From 1b825a43f44d4bb43dd46c060dd9c047947d649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:51 +0000
Subject: [PATCH 03/22] fix: allow from_reflect_with on any field of a tuple
 struct

---
 crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
index 056fdb5..a192068 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/tuple_struct.rs
@@ -216,7 +216,7 @@ fn expand_from_reflect(
                     #field_index: {
                         let value = tuple_struct.field_at(#reflected_idx)?;
                         #from_reflect_with(value)?
-                    }
+                    },
                 }
             } else if attrs.clone_opt_out {
                 quote_spanned! {span=>
-- 
2.43.0


From b847ce274a0dc84a4ddc3fb275e8045e48cec5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:12 +0000
Subject: [PATCH 04/22] fix: allow enum variant fields named like variables of
 the generated code

---
 .../src/derive_reflect/enum_.rs               | 118 ++++++++++--------
 1 file changed, 63 insertions(+), 55 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
index 50921f8..5f28efb 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/enum_.rs
@@ -1,5 +1,3 @@
-use alloc::borrow::Cow;
-
 use proc_macro2::TokenStream;
 use quote::quote;
 use syn::DataEnum;
@@ -130,22 +128,22 @@ fn expand_reflect(
     let fn_patch = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
-            let field_names = variant.field_names();
+            let field_patterns = variant.field_patterns();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
                             if let Some(new_value) = enum_.field(#ident_string) {
-                                #ident.patch(new_value);
+                                #binding.patch(new_value);
                             }
                         }
                     });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             if variant_matches {
                                 #(#set_fields)*
                             }
@@ -165,7 +163,7 @@ fn expand_reflect(
                     );
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             if variant_matches {
                                 #(#set_fields)*
                             }
@@ -223,22 +221,22 @@ fn expand_reflect(
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
             let variant_ident_string = stringify(variant_ident);
-            let field_names = variant.field_names();
+            let field_patterns = variant.field_patterns();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let set_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let ident_string = stringify(ident);
+                        let ident_string = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
-                            value.set_struct_field(#ident_string, #ident.to_value());
+                            value.set_struct_field(#ident_string, #binding.to_value());
                         }
                     });
 
                     let fields_len = fields.len();
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             let mut value = EnumValue::new_struct_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(#set_fields)*
                             value.finish().into()
@@ -246,7 +244,7 @@ fn expand_reflect(
                     }
                 }
                 FieldsData::Unnamed(fields) => {
-                    let field_names = field_names.collect::<Vec<_>>();
+                    let field_patterns = field_patterns.collect::<Vec<_>>();
 
                     let included_fields = fields
                         .iter()
@@ -256,7 +254,7 @@ fn expand_reflect(
                     let fields_len = fields.len();
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             let mut value = EnumValue::new_tuple_variant_with_capacity(#variant_ident_string, #fields_len);
                             #(
                                 value.push_tuple_field(#included_fields.to_value());
@@ -534,21 +532,21 @@ fn expand_enum(
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
-                    let field_names = variant.field_names();
+                    let field_patterns = variant.field_patterns();
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let binding = &field.binding;
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             #(#return_if_name_matches)*
                         }
                     }
@@ -582,21 +580,21 @@ fn expand_enum(
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
-                    let field_names = variant.field_names();
+                    let field_patterns = variant.field_patterns();
 
                     let return_if_name_matches =
                         fields.iter().filter(filter_out_skipped).map(|field| {
-                            let ident = &field.ident;
-                            let ident_string = stringify(ident);
+                            let ident_string = stringify(field.ident);
+                            let binding = &field.binding;
                             quote! {
                                 if name == #ident_string {
-                                    return Some(#ident);
+                                    return Some(#binding);
                                 }
                             }
                         });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             #(#return_if_name_matches)*
                         },
                     }
@@ -628,24 +626,24 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
+                let field_patterns = variant.field_patterns();
 
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect());
+                                            return Some(#binding.as_reflect());
                                         }
                                     }
                                 },
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { #(#field_patterns,)* } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -664,7 +662,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(#(#field_patterns,)*) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -692,24 +690,24 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
+                let field_patterns = variant.field_patterns();
 
                 match &variant.fields {
                     FieldsData::Named(fields) => {
                         let return_if_index_matches =
                             fields.iter().filter(filter_out_skipped).enumerate().map(
                                 |(idx, field)| {
-                                    let field_name = &field.ident;
+                                    let binding = &field.binding;
                                     quote! {
                                         if #idx == index {
-                                            return Some(#field_name.as_reflect_mut());
+                                            return Some(#binding.as_reflect_mut());
                                         }
                                     }
                                 },
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { #(#field_patterns,)* } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -728,7 +726,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(#(#field_patterns,)*) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -765,20 +763,20 @@ fn expand_enum(
     let fn_fields_mut = {
         let match_arms = variants.iter().filter(filter_out_skipped).map(|variant| {
             let variant_ident = &variant.ident;
-            let field_names = variant.field_names().collect::<Vec<_>>();
+            let field_patterns = variant.field_patterns().collect::<Vec<_>>();
 
             match &variant.fields {
                 FieldsData::Named(fields) => {
                     let code_for_fields = fields.iter().filter(filter_out_skipped).map(|field| {
-                        let ident = &field.ident;
-                        let field = stringify(ident);
+                        let name = stringify(field.ident);
+                        let binding = &field.binding;
                         quote! {
-                            (#field, #ident.as_reflect_mut()),
+                            (#name, #binding.as_reflect_mut()),
                         }
                     });
 
                     quote! {
-                        Self::#variant_ident { #(#field_names,)* } => {
+                        Self::#variant_ident { #(#field_patterns,)* } => {
                             let iter = [#(#code_for_fields)*];
                             VariantFieldIterMut::new_struct_variant(iter)
                         },
@@ -791,7 +789,7 @@ fn expand_enum(
                         .map(|field| &field.fake_ident);
 
                     quote! {
-                        Self::#variant_ident(#(#field_names,)*) => {
+                        Self::#variant_ident(#(#field_patterns,)*) => {
                             let iter = [#(#included_fields.as_reflect_mut(),)*];
                             VariantFieldIterMut::new_tuple_variant(iter)
                         },
@@ -868,7 +866,7 @@ fn expand_enum(
         let match_arms =
             variants.iter().filter(filter_out_skipped).map(|variant| {
                 let variant_ident = &variant.ident;
-                let field_names = variant.field_names();
+                let field_patterns = variant.field_patterns();
 
                 match &variant.fields {
                     FieldsData::Named(fields) => {
@@ -885,7 +883,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident { #(#field_names,)* } => {
+                            Self::#variant_ident { #(#field_patterns,)* } => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -904,7 +902,7 @@ fn expand_enum(
                             );
 
                         quote! {
-                            Self::#variant_ident(#(#field_names,)*) => {
+                            Self::#variant_ident(#(#field_patterns,)*) => {
                                 #(#return_if_index_matches)*
                             },
                         }
@@ -971,7 +969,16 @@ impl<'a> VariantData<'a> {
                                 let ty = &field.ty;
                                 let attrs = InnerAttrs::parse(&field.attrs)?;
 
-                                Ok(NamedField { ident, ty, attrs })
+                                // the fields might have the same names as the variables
+                                // used in the generated code
+                                let binding = quote::format_ident!("__field_{ident}");
+
+                                Ok(NamedField {
+                                    ident,
+                                    ty,
+                                    attrs,
+                                    binding,
+                                })
                             })
                             .collect::<syn::Result<Vec<_>>>()?;
 
@@ -1013,17 +1020,17 @@ impl<'a> VariantData<'a> {
 }
 
 impl<'a> VariantData<'a> {
-    fn field_names<'this>(&'this self) -> Box<dyn Iterator<Item = Cow<'a, Ident>> + 'this> {
+    fn field_patterns<'this>(&'this self) -> Box<dyn Iterator<Item = TokenStream> + 'this> {
         match &self.fields {
-            FieldsData::Named(fields) => {
-                Box::new(fields.iter().map(|field| Cow::Borrowed(field.ident)))
-            }
-            FieldsData::Unnamed(fields) => Box::new(
-                fields
-                    .iter()
-                    .enumerate()
-                    .map(|(index, _)| Cow::Owned(quote::format_ident!("field_{index}"))),
-            ),
+            FieldsData::Named(fields) => Box::new(fields.iter().map(|field| {
+                let ident = field.ident;
+                let binding = &field.binding;
+                quote! { #ident: #binding }
+            })),
+            FieldsData::Unnamed(fields) => Box::new(fields.iter().map(|field| {
+                let fake_ident = &field.fake_ident;
+                quote! { #fake_ident }
+            })),
             FieldsData::Unit => Box::new(core::iter::empty()),
         }
     }
@@ -1039,6 +1046,7 @@ struct NamedField<'a> {
     ident: &'a Ident,
     ty: &'a Type,
     attrs: InnerAttrs,
+    binding: Ident,
 }
 
 impl<'a> NamedField<'a> {
-- 
2.43.0


From 9204c58ccce56712c73b1cf939585f6022925a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:43 +0000
Subject: [PATCH 05/22] fix: report the remaining length from exact size field
 and element iterators

---
 crates/mirror-mirror/src/array.rs        | 7 ++++++-
 crates/mirror-mirror/src/struct_.rs      | 7 ++++++-
 crates/mirror-mirror/src/tuple.rs        | 7 ++++++-
 crates/mirror-mirror/src/tuple_struct.rs | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index b158686..9be5754 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -45,11 +45,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.array.len()
+        self.array.len() - self.index
     }
 }
 
diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index d45c974..ab63718 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -219,11 +219,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some((name, value))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.struct_.fields_len()
+        self.struct_.fields_len() - self.index
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index dfc2f24..7ec5d58 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -339,11 +339,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple.fields_len()
+        self.tuple.fields_len() - self.index
     }
 }
 
diff --git a/crates/mirror-mirror/src/tuple_struct.rs b/crates/mirror-mirror/src/tuple_struct.rs
index 35956fd..f240299 100644
--- a/crates/mirror-mirror/src/tuple_struct.rs
+++ b/crates/mirror-mirror/src/tuple_struct.rs
@@ -190,11 +190,16 @@ impl<'a> Iterator for Iter<'a> {
         self.index += 1;
         Some(value)
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a> ExactSizeIterator for Iter<'a> {
     fn len(&self) -> usize {
-        self.tuple_struct.fields_len()
+        self.tuple_struct.fields_len() - self.index
     }
 }
 
-- 
2.43.0


From ab9b62dd34d6e5260a18712a1731a44682aecbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 06/22] fix: overwriting a field of a struct value must not
 duplicate it

---
 crates/mirror-mirror/src/struct_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index ab63718..b403377 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -74,8 +74,9 @@ impl StructValue {
 
     pub fn set_field(&mut self, name: impl Into<String>, value: impl Into<Value>) {
         let name = name.into();
-        self.field_names.push(name.clone());
-        self.fields.insert(name, value.into());
+        if self.fields.insert(name.clone(), value.into()).is_none() {
+            self.field_names.push(name);
+        }
     }
 }
 
-- 
2.43.0


From 93b13cc6f66f8dcb0fc0949a65935b661733c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 07/22] fix: iterate mutably over the fields of a struct value
 in field order

---
 crates/mirror-mirror/src/struct_.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/struct_.rs b/crates/mirror-mirror/src/struct_.rs
index b403377..a04429f 100644
--- a/crates/mirror-mirror/src/struct_.rs
+++ b/crates/mirror-mirror/src/struct_.rs
@@ -144,10 +144,16 @@ impl Struct for StructValue {
     }
 
     fn fields_mut(&mut self) -> PairIterMut<'_> {
-        let iter = self
+        let mut fields = self
             .fields
             .iter_mut()
-            .map(|(key, value)| (&**key, value.as_reflect_mut()));
+            .map(|(name, value)| (&**name, value))
+            .collect::<BTreeMap<&str, &mut Value>>();
+        // iterate in the same order as `fields`
+        let iter = self.field_names.iter().filter_map(move |name| {
+            let value = fields.remove(&**name)?;
+            Some((&**name, value.as_reflect_mut()))
+        });
         Box::new(iter)
     }
 
-- 
2.43.0


From 8f73aab20c79d15ec30b895e4613f028ed41d4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:07 +0000
Subject: [PATCH 08/22] fix: reject seconds that aren't a valid duration
 instead of panicking

---
 crates/mirror-mirror/src/foreign_impls/via_scalar.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
index 7364526..863c689 100644
--- a/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
+++ b/crates/mirror-mirror/src/foreign_impls/via_scalar.rs
@@ -97,7 +97,14 @@ impl_reflect_via_scalar! { NonZeroI32,   i32,   |n: &NonZeroI32| n.get(),   Self
 impl_reflect_via_scalar! { NonZeroI64,   i64,   |n: &NonZeroI64| n.get(),   Self::new }
 impl_reflect_via_scalar! { NonZeroI128,  i128,  |n: &NonZeroI128| n.get(),  Self::new }
 
-impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), Self::from_secs_f32 }
+impl_reflect_via_scalar! { Duration, f32, |d: &Duration| d.as_secs_f32(), duration_from_secs_f32 }
+
+// `Duration::try_from_secs_f32` isn't available on our minimum supported rust version and
+// `Duration::from_secs_f32` panics on values that don't fit in a `Duration`
+fn duration_from_secs_f32(secs: f32) -> Option<Duration> {
+    let max = u64::MAX as f32;
+    (secs >= 0.0 && secs < max).then(|| Duration::from_secs_f32(secs))
+}
 
 trait IntoOption<T> {
     fn into_option(self) -> Option<T>;
-- 
2.43.0


From 2ed0b99cffae06829a0224e961fa3204fb14e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:27 +0000
Subject: [PATCH 09/22] fix: treat arrays and their values alike in conversion,
 patching and comparison

---
 crates/mirror-mirror/src/array.rs             | 12 ++++++++++++
 .../mirror-mirror/src/foreign_impls/array.rs  | 11 ++++++++---
 crates/mirror-mirror/src/foreign_impls/vec.rs |  5 +++--
 crates/mirror-mirror/src/reflect_eq.rs        | 19 +++++++++++++++++--
 4 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/crates/mirror-mirror/src/array.rs b/crates/mirror-mirror/src/array.rs
index 9be5754..d2b9b13 100644
--- a/crates/mirror-mirror/src/array.rs
+++ b/crates/mirror-mirror/src/array.rs
@@ -3,6 +3,7 @@ use core::iter::FusedIterator;
 
 use crate::iter::ValueIterMut;
 use crate::Reflect;
+use crate::ReflectRef;
 
 /// A reflected array type.
 pub trait Array: Reflect {
@@ -25,6 +26,17 @@ impl fmt::Debug for dyn Array {
     }
 }
 
+/// The elements of an array or a list.
+///
+/// The value of an array is a list so the two have to be interchangeable.
+pub(crate) fn elements(reflect: &dyn Reflect) -> Option<Iter<'_>> {
+    match reflect.reflect_ref() {
+        ReflectRef::Array(array) => Some(array.iter()),
+        ReflectRef::List(list) => Some(list.iter()),
+        _ => None,
+    }
+}
+
 #[derive(Debug)]
 pub struct Iter<'a> {
     index: usize,
diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index 5dcec66..f7e0ac2 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -3,6 +3,7 @@ use alloc::vec::Vec;
 use core::any::Any;
 use core::fmt;
 
+use crate::array::elements;
 use crate::array::Array;
 use crate::iter::ValueIterMut;
 use crate::type_info::graph::ArrayNode;
@@ -44,8 +45,8 @@ where
     }
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(array) = value.reflect_ref().as_array() {
-            for (idx, new_value) in array.iter().enumerate() {
+        if let Some(elements) = elements(value) {
+            for (idx, new_value) in elements.enumerate() {
                 if let Some(value) = self.get_mut(idx) {
                     value.patch(new_value);
                 }
@@ -108,7 +109,11 @@ where
     T: FromReflect + DescribeType,
 {
     fn from_reflect(reflect: &dyn Reflect) -> Option<Self> {
-        Vec::<T>::from_reflect(reflect)?.try_into().ok()
+        elements(reflect)?
+            .map(T::from_reflect)
+            .collect::<Option<Vec<_>>>()?
+            .try_into()
+            .ok()
     }
 }
 
diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 2675b45..20de66e 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -2,6 +2,7 @@ use alloc::boxed::Box;
 use alloc::vec::Vec;
 use core::any::Any;
 
+use crate::array::elements;
 use crate::array::Array;
 use crate::iter::ValueIterMut;
 use crate::type_info::graph::ListNode;
@@ -92,8 +93,8 @@ where
     trivial_reflect_methods!();
 
     fn patch(&mut self, value: &dyn Reflect) {
-        if let Some(list) = value.reflect_ref().as_list() {
-            for (idx, new_value) in list.iter().enumerate() {
+        if let Some(elements) = elements(value) {
+            for (idx, new_value) in elements.enumerate() {
                 if let Some(value) = self.get_mut(idx) {
                     value.patch(new_value);
                 }
diff --git a/crates/mirror-mirror/src/reflect_eq.rs b/crates/mirror-mirror/src/reflect_eq.rs
index e3b9413..609fbc6 100644
--- a/crates/mirror-mirror/src/reflect_eq.rs
+++ b/crates/mirror-mirror/src/reflect_eq.rs
@@ -1,4 +1,5 @@
 use crate::{
+    array,
     enum_::{VariantField, VariantKind},
     Array, Enum, List, Map, Reflect, ReflectRef, Struct, Tuple, TupleStruct,
 };
@@ -15,6 +16,9 @@ pub fn reflect_eq(a: &dyn Reflect, b: &dyn Reflect) -> Option<bool> {
         (ReflectRef::Enum(a), ReflectRef::Enum(b)) => reflect_eq_enum(a, b),
         (ReflectRef::Array(a), ReflectRef::Array(b)) => reflect_eq_array(a, b),
         (ReflectRef::List(a), ReflectRef::List(b)) => reflect_eq_list(a, b),
+        // the value of an array is a list
+        (ReflectRef::Array(a), ReflectRef::List(b)) => reflect_eq_elements(a.iter(), b.iter()),
+        (ReflectRef::List(a), ReflectRef::Array(b)) => reflect_eq_elements(a.iter(), b.iter()),
         (ReflectRef::Map(a), ReflectRef::Map(b)) => reflect_eq_map(a, b),
         (ReflectRef::Opaque(_), _) | (_, ReflectRef::Opaque(_)) => None,
 
@@ -53,7 +57,6 @@ pub fn reflect_eq(a: &dyn Reflect, b: &dyn Reflect) -> Option<bool> {
             | ReflectRef::TupleStruct(_)
             | ReflectRef::Tuple(_)
             | ReflectRef::Enum(_)
-            | ReflectRef::List(_)
             | ReflectRef::Map(_)
             | ReflectRef::Scalar(_),
             ReflectRef::Array(_),
@@ -63,7 +66,6 @@ pub fn reflect_eq(a: &dyn Reflect, b: &dyn Reflect) -> Option<bool> {
             | ReflectRef::TupleStruct(_)
             | ReflectRef::Tuple(_)
             | ReflectRef::Enum(_)
-            | ReflectRef::Array(_)
             | ReflectRef::Map(_)
             | ReflectRef::Scalar(_),
             ReflectRef::List(_),
@@ -252,6 +254,19 @@ fn reflect_eq_list(a: &dyn List, b: &dyn List) -> Option<bool> {
     )
 }
 
+fn reflect_eq_elements(a: array::Iter<'_>, b: array::Iter<'_>) -> Option<bool> {
+    if a.len() != b.len() {
+        return Some(false);
+    }
+    for (value_a, value_b) in a.zip(b) {
+        match reflect_eq(value_a, value_b) {
+            Some(true) => {}
+            other => return other,
+        }
+    }
+    Some(true)
+}
+
 fn reflect_eq_map(a: &dyn Map, b: &dyn Map) -> Option<bool> {
     Some(
         a.len() == b.len() && {
-- 
2.43.0


From 1053d7dd5b17ddd7f148dc54def31bc01f660bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 10/22] fix: clone containers without a lossy conversion
 through values

---
 crates/mirror-mirror-macros/src/derive_reflect/attrs.rs | 3 +--
 crates/mirror-mirror/src/foreign_impls/array.rs         | 3 +--
 crates/mirror-mirror/src/foreign_impls/btree_map.rs     | 3 +--
 crates/mirror-mirror/src/foreign_impls/vec.rs           | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
index 143adcf..fdc64e9 100644
--- a/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
+++ b/crates/mirror-mirror-macros/src/derive_reflect/attrs.rs
@@ -150,8 +150,7 @@ impl ItemAttrs {
         if self.clone_opt_out {
             quote! {
                 fn clone_reflect(&self) -> Box<dyn Reflect> {
-                    let value = self.to_value();
-                    Box::new(Self::from_reflect(&value).unwrap())
+                    Box::new(Self::from_reflect(self).unwrap())
                 }
             }
         } else {
diff --git a/crates/mirror-mirror/src/foreign_impls/array.rs b/crates/mirror-mirror/src/foreign_impls/array.rs
index f7e0ac2..d54c71c 100644
--- a/crates/mirror-mirror/src/foreign_impls/array.rs
+++ b/crates/mirror-mirror/src/foreign_impls/array.rs
@@ -60,8 +60,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/btree_map.rs b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
index 3afed9a..ed2b633 100644
--- a/crates/mirror-mirror/src/foreign_impls/btree_map.rs
+++ b/crates/mirror-mirror/src/foreign_impls/btree_map.rs
@@ -117,8 +117,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
diff --git a/crates/mirror-mirror/src/foreign_impls/vec.rs b/crates/mirror-mirror/src/foreign_impls/vec.rs
index 20de66e..6ac7fe5 100644
--- a/crates/mirror-mirror/src/foreign_impls/vec.rs
+++ b/crates/mirror-mirror/src/foreign_impls/vec.rs
@@ -108,8 +108,7 @@ where
     }
 
     fn clone_reflect(&self) -> Box<dyn Reflect> {
-        let value = self.to_value();
-        Box::new(Self::from_reflect(&value).unwrap())
+        Box::new(Self::from_reflect(self).unwrap())
     }
 
     fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-- 
2.43.0


From 3e19f85e6cf7d70e8d035983fb8449bccb5aec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 11/22] fix: empty arrays always have a default value

---
 crates/mirror-mirror/src/type_info/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 478c756..c7593c8 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1269,7 +1269,7 @@ impl<'a> ArrayType<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        self.element_type().has_default_value()
+        self.is_empty() || self.element_type().has_default_value()
     }
 }
 
-- 
2.43.0


From 1fdd0006d9b5a474125de0137a48e1ed051b0616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 12/22] fix: don't wrap out of range indices in key paths

---
 crates/mirror-mirror/src/key_path.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 250cf6f..07f540d 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -570,14 +570,14 @@ pub(crate) fn value_to_usize(value: &Value) -> Option<usize> {
         Value::usize(n) => Some(*n),
         Value::u8(n) => Some(*n as usize),
         Value::u16(n) => Some(*n as usize),
-        Value::u32(n) => Some(*n as usize),
-        Value::u64(n) => Some(*n as usize),
-        Value::u128(n) => Some(*n as usize),
-        Value::i8(n) => Some(*n as usize),
-        Value::i16(n) => Some(*n as usize),
-        Value::i32(n) => Some(*n as usize),
-        Value::i64(n) => Some(*n as usize),
-        Value::i128(n) => Some(*n as usize),
+        Value::u32(n) => usize::try_from(*n).ok(),
+        Value::u64(n) => usize::try_from(*n).ok(),
+        Value::u128(n) => usize::try_from(*n).ok(),
+        Value::i8(n) => usize::try_from(*n).ok(),
+        Value::i16(n) => usize::try_from(*n).ok(),
+        Value::i32(n) => usize::try_from(*n).ok(),
+        Value::i64(n) => usize::try_from(*n).ok(),
+        Value::i128(n) => usize::try_from(*n).ok(),
         Value::bool(_)
         | Value::char(_)
         | Value::f32(_)
-- 
2.43.0


From 03aea93efc8e666fce657998f37b42687f1a1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 13/22] fix: downcast struct and enum values stored in a value

---
 crates/mirror-mirror/src/value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/value.rs b/crates/mirror-mirror/src/value.rs
index 34808da..e9155b6 100644
--- a/crates/mirror-mirror/src/value.rs
+++ b/crates/mirror-mirror/src/value.rs
@@ -195,11 +195,11 @@ impl Reflect for Value {
     }
 
     fn as_any(&self) -> &dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any())
     }
 
     fn as_any_mut(&mut self) -> &mut dyn Any {
-        for_each_variant!(self, inner => inner)
+        for_each_variant!(self, inner => inner.as_any_mut())
     }
 
     fn as_reflect(&self) -> &dyn Reflect {
-- 
2.43.0


From 114c4729975db4a72e8041f7f29bcad3c297cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 14/22] fix: look up enum fields of values by owned names

---
 crates/mirror-mirror/src/get_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mirror-mirror/src/get_field.rs b/crates/mirror-mirror/src/get_field.rs
index 2fb8276..a32fe9d 100644
--- a/crates/mirror-mirror/src/get_field.rs
+++ b/crates/mirror-mirror/src/get_field.rs
@@ -99,9 +99,9 @@ where
             match self.reflect_ref() {
                 ReflectRef::Map(inner) => inner.get_field(key.to_owned()),
                 ReflectRef::Struct(inner) => inner.get_field(key),
+                ReflectRef::Enum(inner) => inner.get_field(&**key),
                 ReflectRef::TupleStruct(_)
                 | ReflectRef::Tuple(_)
-                | ReflectRef::Enum(_)
                 | ReflectRef::List(_)
                 | ReflectRef::Array(_)
                 | ReflectRef::Opaque(_)
@@ -145,9 +145,9 @@ where
             match self.reflect_mut() {
                 ReflectMut::Map(inner) => inner.get_field_mut(key.to_owned()),
                 ReflectMut::Struct(inner) => inner.get_field_mut(key),
+                ReflectMut::Enum(inner) => inner.get_field_mut(&**key),
                 ReflectMut::TupleStruct(_)
                 | ReflectMut::Tuple(_)
-                | ReflectMut::Enum(_)
                 | ReflectMut::List(_)
                 | ReflectMut::Array(_)
                 | ReflectMut::Opaque(_)
-- 
2.43.0


From 4c6f3c704872421448a02d2fa4e6f786fd0a2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:33 +0000
Subject: [PATCH 15/22] fix: expose metadata and docs of variants found by key
 path

---
 crates/mirror-mirror/src/type_info/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index c7593c8..0d48b63 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -1400,8 +1400,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::TupleStruct(inner) => inner.meta(key),
             TypeAtPath::Enum(inner) => inner.meta(key),
             TypeAtPath::Opaque(inner) => inner.meta(key),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.meta(key),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
@@ -1414,8 +1414,8 @@ impl<'a> GetMeta<'a> for TypeAtPath<'a> {
             TypeAtPath::Struct(inner) => inner.docs(),
             TypeAtPath::TupleStruct(inner) => inner.docs(),
             TypeAtPath::Enum(inner) => inner.docs(),
-            TypeAtPath::Variant(_)
-            | TypeAtPath::Tuple(_)
+            TypeAtPath::Variant(inner) => inner.docs(),
+            TypeAtPath::Tuple(_)
             | TypeAtPath::List(_)
             | TypeAtPath::Array(_)
             | TypeAtPath::Map(_)
-- 
2.43.0


From 519d5865e81b341b36cb82d08f35910013e3c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 16/22] fix: a type whose default value would contain itself
 has no default value

---
 crates/mirror-mirror/src/type_info/mod.rs | 59 ++++++++++++++++++-----
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/mod.rs b/crates/mirror-mirror/src/type_info/mod.rs
index 0d48b63..bb2326f 100644
--- a/crates/mirror-mirror/src/type_info/mod.rs
+++ b/crates/mirror-mirror/src/type_info/mod.rs
@@ -303,6 +303,10 @@ impl<'a> Type<'a> {
     }
 
     pub fn default_value(self) -> Option<Value> {
+        if !self.has_default_value() {
+            return None;
+        }
+
         match self {
             Type::Struct(inner) => inner.default_value(),
             Type::TupleStruct(inner) => inner.default_value(),
@@ -317,17 +321,50 @@ impl<'a> Type<'a> {
     }
 
     pub fn has_default_value(&self) -> bool {
-        match self {
-            Type::Struct(inner) => inner.has_default_value(),
-            Type::TupleStruct(inner) => inner.has_default_value(),
-            Type::Tuple(inner) => inner.has_default_value(),
-            Type::Enum(inner) => inner.has_default_value(),
-            Type::List(inner) => inner.has_default_value(),
-            Type::Array(inner) => inner.has_default_value(),
-            Type::Map(inner) => inner.has_default_value(),
-            Type::Scalar(inner) => inner.has_default_value(),
-            Type::Opaque(inner) => inner.has_default_value(),
-        }
+        self.has_default_value_within(&mut Vec::new())
+    }
+
+    /// `parents` are the types whose default values contain the default value of this type. A
+    /// type whose default value would have to contain itself doesn't have a default value.
+    fn has_default_value_within(self, parents: &mut Vec<NodeId>) -> bool {
+        let (id, mut parts): (NodeId, Box<dyn Iterator<Item = Type<'a>>>) = match self {
+            Type::Struct(inner) => (
+                inner.node.id,
+                Box::new(inner.field_types().map(|field| field.get_type())),
+            ),
+            Type::TupleStruct(inner) => (
+                inner.node.id,
+                Box::new(inner.field_types().map(|field| field.get_type())),
+            ),
+            Type::Tuple(inner) => (
+                inner.node.id,
+                Box::new(inner.field_types().map(|field| field.get_type())),
+            ),
+            Type::Enum(inner) => match inner.variants().next() {
+                Some(first_variant) => (
+                    inner.node.id,
+                    Box::new(first_variant.field_types().map(|field| field.get_type())),
+                ),
+                None => return false,
+            },
+            Type::Array(inner) if !inner.is_empty() => (
+                inner.node.id,
+                Box::new(core::iter::once(inner.element_type())),
+            ),
+            Type::Array(_) => return true,
+            Type::List(inner) => return inner.has_default_value(),
+            Type::Map(inner) => return inner.has_default_value(),
+            Type::Scalar(inner) => return inner.has_default_value(),
+            Type::Opaque(inner) => return inner.has_default_value(),
+        };
+
+        if parents.contains(&id) {
+            return false;
+        }
+        parents.push(id);
+        let has_default_value = parts.all(|part| part.has_default_value_within(parents));
+        parents.pop();
+        has_default_value
     }
 
     pub fn into_type_descriptor(self) -> Cow<'static, TypeDescriptor> {
-- 
2.43.0


From 87367ad8d354a10d7d978f262c63f10604c9f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 17/22] fix: keep leading underscores of identifiers in simple
 type names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs   | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 5ca6ef2..428ca68 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -78,13 +78,12 @@ pub struct SimpleTypeName {
 
 impl SimpleTypeName {
     pub fn new(type_name: &str) -> Option<Self> {
-        const UNNAMED_CONST_PATH: &str = "::_";
+        const UNNAMED_CONST_PATH: &str = "::_::";
 
-        let type_name = if type_name.contains(UNNAMED_CONST_PATH) {
-            Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, ""))
-        } else {
-            Cow::Borrowed(type_name)
-        };
+        let mut type_name = Cow::Borrowed(type_name);
+        while type_name.contains(UNNAMED_CONST_PATH) {
+            type_name = Cow::Owned(type_name.replace(UNNAMED_CONST_PATH, "::"));
+        }
 
         let ty = syn::parse_str::<Type>(&type_name).ok()?;
         Some(Self { ty })
-- 
2.43.0


From 3dd8439c0eb09abe658fab701097f98b9a67a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 18/22] fix: leave lifetimes out of simple type names

---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 428ca68..812a7d7 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -294,8 +294,15 @@ impl<'a, 'b> WriteAst<AngleBracketedGenericArguments> for TypeWriter<'a, 'b> {
             args,
             gt_token: _,
         } = args;
+        // type names might include anonymous lifetimes
+        let mut args = args
+            .iter()
+            .filter(|arg| !matches!(arg, GenericArgument::Lifetime(_)))
+            .peekable();
+        if args.peek().is_none() {
+            return Ok(());
+        }
         write!(self.f, "<")?;
-        let mut args = args.iter().peekable();
         while let Some(arg) = args.next() {
             self.write(arg)?;
             if args.peek().is_some() {
-- 
2.43.0


From 9b4afd09b1071a8ca95f514d7cc932c764c1a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:35 +0000
Subject: [PATCH 19/22] fix: support char const generics in simple type names

---
 .../mirror-mirror/src/type_info/simple_type_name.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index 812a7d7..c157a6f 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -5,7 +5,7 @@ use core::{any::type_name, fmt};
 use alloc::borrow::Cow;
 use syn::{
     token::Mut, AngleBracketedGenericArguments, Expr, ExprLit, GenericArgument, Ident, Lit,
-    LitBool, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray, TypePath,
+    LitBool, LitChar, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray, TypePath,
     TypeReference, TypeTuple,
 };
 
@@ -212,9 +212,8 @@ impl<'a, 'b> WriteAst<Lit> for TypeWriter<'a, 'b> {
             Lit::Int(inner) => self.write(inner),
             Lit::Bool(inner) => self.write(inner),
             Lit::Float(inner) => self.write(inner),
-            Lit::Str(_) | Lit::ByteStr(_) | Lit::Byte(_) | Lit::Char(_) | Lit::Verbatim(_) | _ => {
-                Err(fmt::Error)
-            }
+            Lit::Char(inner) => self.write(inner),
+            Lit::Str(_) | Lit::ByteStr(_) | Lit::Byte(_) | Lit::Verbatim(_) | _ => Err(fmt::Error),
         }
     }
 }
@@ -237,6 +236,12 @@ impl<'a, 'b> WriteAst<LitBool> for TypeWriter<'a, 'b> {
     }
 }
 
+impl<'a, 'b> WriteAst<LitChar> for TypeWriter<'a, 'b> {
+    fn write(&mut self, lit: &LitChar) -> fmt::Result {
+        write!(self.f, "{:?}", lit.value())
+    }
+}
+
 impl<'a, 'b> WriteAst<TypePath> for TypeWriter<'a, 'b> {
     fn write(&mut self, ty: &TypePath) -> fmt::Result {
         let TypePath { qself, path } = ty;
-- 
2.43.0


From 87c5f693373ce4372ec9ef6c3eaa3e46c5942b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:51 +0000
Subject: [PATCH 20/22] fix: pretty print types whose name can't be simplified

---
 crates/mirror-mirror/src/type_info/pretty_print.rs     | 9 ++++++---
 crates/mirror-mirror/src/type_info/simple_type_name.rs | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/mirror-mirror/src/type_info/pretty_print.rs b/crates/mirror-mirror/src/type_info/pretty_print.rs
index 7b794c6..7dde23e 100644
--- a/crates/mirror-mirror/src/type_info/pretty_print.rs
+++ b/crates/mirror-mirror/src/type_info/pretty_print.rs
@@ -51,11 +51,14 @@ impl<'a> PrettyPrintRoot for Type<'a> {
 
 #[cfg(feature = "std")]
 fn simple_type_name_fmt(type_name: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+    // not all types can be printed as a simple type name
+    let mut simple_type_name = String::new();
     if let Some(name) = super::SimpleTypeName::new(type_name) {
-        write!(f, "{name}")
-    } else {
-        f.write_str(type_name)
+        if write!(simple_type_name, "{name}").is_ok() {
+            return f.write_str(&simple_type_name);
+        }
     }
+    f.write_str(type_name)
 }
 
 #[cfg(not(feature = "std"))]
diff --git a/crates/mirror-mirror/src/type_info/simple_type_name.rs b/crates/mirror-mirror/src/type_info/simple_type_name.rs
index c157a6f..c0c3193 100644
--- a/crates/mirror-mirror/src/type_info/simple_type_name.rs
+++ b/crates/mirror-mirror/src/type_info/simple_type_name.rs
@@ -5,8 +5,8 @@ use core::{any::type_name, fmt};
 use alloc::borrow::Cow;
 use syn::{
     token::Mut, AngleBracketedGenericArguments, Expr, ExprLit, GenericArgument, Ident, Lit,
-    LitBool, LitChar, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray, TypePath,
-    TypeReference, TypeTuple,
+    LitBool, LitChar, LitFloat, LitInt, Path, PathArguments, PathSegment, Type, TypeArray,
+    TypePath, TypeReference, TypeTuple,
 };
 
 /// A writer for simplified type names.
-- 
2.43.0


From bf860deecd7c9d5dd4460473ea386575bd827737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 21/22] fix: debug print the fields of tuples instead of their
 type name

---
 crates/mirror-mirror/src/tuple.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mirror-mirror/src/tuple.rs b/crates/mirror-mirror/src/tuple.rs
index 7ec5d58..06699c1 100644
--- a/crates/mirror-mirror/src/tuple.rs
+++ b/crates/mirror-mirror/src/tuple.rs
@@ -205,7 +205,11 @@ macro_rules! impl_tuple {
             }
 
             fn debug(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-                write!(f, "{}", core::any::type_name::<Self>())
+                if self.fields_len() == 0 {
+                    f.write_str("()")
+                } else {
+                    crate::reflect_debug(self, f)
+                }
             }
 
             fn reflect_owned(self: Box<Self>) -> ReflectOwned {
-- 
2.43.0


From 0efceca900f328990659b253dd2d73847e0c6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 22/22] fix: exact size hints of key path iterators

The iterators over a key path claim an exact size but had the default size hint, so that
`path.iter().take(1).len()` panicked.
---
 crates/mirror-mirror/src/key_path.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mirror-mirror/src/key_path.rs b/crates/mirror-mirror/src/key_path.rs
index 07f540d..8af3719 100644
--- a/crates/mirror-mirror/src/key_path.rs
+++ b/crates/mirror-mirror/src/key_path.rs
@@ -313,6 +313,10 @@ impl Iterator for IntoIter {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for IntoIter {
@@ -347,6 +351,10 @@ impl<'a> Iterator for Iter<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.0.next()
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.0.size_hint()
+    }
 }
 
 impl<'a> DoubleEndedIterator for Iter<'a> {
-- 
2.43.0

