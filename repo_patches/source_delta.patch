From 881dbd57f91643dc60cdc1a237d2f96c2ea9a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:01 +0000
Subject: [PATCH 01/20] fix: write the element around text content behind named
 types and fixed values

---
 xsd-internal/src/ast/element_definition.rs | 12 +++---------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/root.rs               | 12 ++----------
 xsd-internal/src/xsd/context.rs            |  9 +++++++++
 4 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..5b2ba8a 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,4 @@
-use crate::ast::{LeafContent, LeafDefinition};
+use crate::ast::LeafDefinition;
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -42,14 +42,8 @@ impl ElementDefinition {
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
-            self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            &self.content,
+            Some(ElementContent::Leaf(_, LeafDefinition { content, .. })) if !ctx.is_text(content)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..13ef6c3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && ctx.is_text(&self.definition.content);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..38b8562 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -171,14 +171,7 @@ impl Root {
                     let val = &self.0;
                     #inner
                 };
-                // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if ctx.is_text(&def.content) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -209,8 +202,7 @@ impl Root {
                     let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if ctx.is_text(&variant.definition.content) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..e0b3b2e 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -185,6 +185,15 @@ impl SchemaContext {
         }
         next
     }
+
+    /// Whether the content is plain text, i.e. a literal or a fixed value (possibly behind named
+    /// types), that does not write the XML element surrounding it by itself.
+    pub fn is_text(&self, content: &LeafContent) -> bool {
+        match content {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(self.resolve(name), Some(Root::Leaf(_))),
+        }
+    }
 }
 
 fn literal_from_str(literal: &str) -> Option<LiteralType> {
-- 
2.43.0


From 59a8e9e2835abe2f447b6bb4b407c5e2afecd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:19 +0000
Subject: [PATCH 02/20] fix: write choice variants with their namespace prefix

---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 38b8562..8bc0bc8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -200,7 +200,7 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if ctx.is_text(&variant.definition.content) {
                         quote! {
-- 
2.43.0


From 0187e9eee584ba37ba580691fb80d1a3983c6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:33 +0000
Subject: [PATCH 03/20] fix: accept optional members of xs:all in any order

---
 xsd-internal/src/ast/leaf.rs | 7 ++++++-
 xsd-internal/src/ast/root.rs | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 13ef6c3..8a53810 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -203,8 +203,13 @@ impl Leaf {
 
                 from_vec
             } else if self.is_optional() {
+                let child = if self.is_unordered {
+                    quote!(child)
+                } else {
+                    quote!(next_child)
+                };
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let Some(node) = node.#child(#name_xml, #namespace_xml) {
                         Some(#value)
                     } else {
                         None
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 8bc0bc8..96ef20a 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -347,7 +347,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        // the members of an `xs:all` can start with any of them
+                        *prev_required = !leaf.is_unordered && !leaf.is_optional();
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 57a072d4c8448eff24476605710db0921669245e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 04/20] fix: escape all reserved words, also in choice variants
 and lookaheads

---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 13 +++++++------
 xsd-internal/src/utils.rs    | 12 ++++++++----
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 8a53810..001d79c 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -3,7 +3,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -139,7 +139,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -169,7 +169,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 96ef20a..85ef5be 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -199,7 +200,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
                     let mut inner = if ctx.is_text(&variant.definition.content) {
@@ -274,13 +275,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -358,7 +359,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -390,7 +391,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..f8ed3ed 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -2,10 +2,14 @@ use quote::format_ident;
 
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
-        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        // these cannot be raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "break" | "const" | "continue" | "else" | "enum" | "extern" | "false" | "fn" | "for"
+        | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut" | "pub"
+        | "ref" | "return" | "static" | "struct" | "trait" | "true" | "type" | "unsafe" | "use"
+        | "where" | "while" | "as" | "async" | "await" | "dyn" | "abstract" | "become" | "box"
+        | "do" | "final" | "gen" | "macro" | "override" | "priv" | "try" | "typeof" | "unsized"
+        | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
         _ => format_ident!("{}", name),
-- 
2.43.0


From 8f8ffd644d14b6833ed6b52e5aad248dfe1c2a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 05/20] fix: fall back to a numbered variant for enumeration
 values that are no identifier

---
 xsd-internal/src/ast/root.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 85ef5be..04926b4 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -443,7 +443,9 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
         }
 
         loop {
-            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
+            if syn::parse_str::<Ident>(&variant_name).is_err()
+                || enum_names.contains_key(&variant_name)
+            {
                 unknown_count += 1;
                 variant_name = format!("Variant{}", unknown_count);
             } else {
-- 
2.43.0


From 791bbda1d1f5264278289c37add28cda1d6b896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:35 +0000
Subject: [PATCH 06/20] fix: derive names of groups without slicing characters
 or keeping only digits

---
 xsd-internal/src/xsd/parse/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..3b110cd 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
@@ -60,10 +61,10 @@ fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<S
     let mut names = names.into_iter();
     if let Some(first) = names.next() {
         let name = names.fold(first.to_string(), |lhs, rhs| mutal_prefix(&lhs, rhs));
-        if name.is_empty() {
-            None
-        } else {
+        if name.starts_with(char::is_alphabetic) {
             Some(name)
+        } else {
+            None
         }
     } else {
         None
@@ -83,10 +84,10 @@ fn derive_mutal_suffix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<S
     let mut names = names.into_iter();
     if let Some(first) = names.next() {
         let name = names.fold(first.to_string(), |lhs, rhs| mutal_suffix(&lhs, rhs));
-        if name.is_empty() {
-            None
-        } else {
+        if name.starts_with(char::is_alphabetic) {
             Some(name)
+        } else {
+            None
         }
     } else {
         None
-- 
2.43.0


From 0d82cc078f18376409778d81e2d6d5ac9131b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:30 +0000
Subject: [PATCH 07/20] fix: do not let namespaced attributes shadow the
 attributes of XSD elements

---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..c9512c3 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // ignore custom (aka namespaced) attributes
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From 1707e429b1bf6f4814c030fb4d716db914bfc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:33 +0000
Subject: [PATCH 08/20] fix: reject attributes that differ from their fixed
 value

---
 xsd-internal/src/ast/leaf_content.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..57ca6a2 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -79,7 +79,14 @@ impl LeafContent {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
             LeafContent::Named(name) => name.from_str_impl(),
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 0c0e611409974c6cf03302723f6f648aca9df142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:37 +0000
Subject: [PATCH 09/20] fix: parse attributes whose named type is a literal
 that can fail to parse

---
 xsd-internal/src/ast/attribute.rs          | 4 ++--
 xsd-internal/src/ast/element_definition.rs | 2 +-
 xsd-internal/src/ast/leaf_content.rs       | 7 +++++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..eb1b58a 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,10 +59,10 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 5b2ba8a..2d49c5a 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -64,7 +64,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 57ca6a2..1a4a835 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -75,10 +75,13 @@ impl LeafContent {
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
             LeafContent::Fixed(fixed) => quote! {
                 if val != #fixed {
                     return Err(::xsd::decode::FromXmlError::FixedMismatch {
-- 
2.43.0


From 81b5f5708794200dab611b06b5731eec7ba34a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:41 +0000
Subject: [PATCH 10/20] fix: resolve unprefixed type names through the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index e0b3b2e..fa0e956 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -131,15 +131,18 @@ impl<'input> Context<'input> {
             (Some(name), None) => name,
             _ => &type_name,
         };
-        if self.default_namespace == Some(NS_XSD) {
-            Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
+        match self.default_namespace {
+            Some(NS_XSD) => Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
                 || XsdError::UnsupportedType {
                     name: name.to_string(),
                     range: attr.range(),
                 },
-            )?))
-        } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            )?)),
+            None | Some("") => Ok(LeafContent::Named(Name::new(name, Namespace::None))),
+            Some(ns) => Ok(LeafContent::Named(Name::new(
+                name,
+                self.shared.namespaces.get_or_insert(ns),
+            ))),
         }
     }
 
-- 
2.43.0


From ccfb94507596b85da84cc40231474533b85406f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:44 +0000
Subject: [PATCH 11/20] fix: treat elements under xmlns="" as elements without
 a namespace

---
 xsd/src/decode.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..21dcd3b 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -53,10 +53,19 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+/// The tag name of a node without the empty namespace that `xmlns=""` leads to.
+fn tag_name<'a>(node: &roxmltree::Node<'a, 'a>) -> roxmltree::ExpandedName<'a, 'a> {
+    let tag_name = node.tag_name();
+    match tag_name.namespace() {
+        Some("") => tag_name.name().into(),
+        _ => tag_name,
+    }
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
+        let tag_name = tag_name(&root);
         if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
             None
         } else {
@@ -94,7 +103,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
+            let tag_name = tag_name(next);
             return tag_name.name() == name && tag_name.namespace() == namespace;
         }
         false
@@ -108,7 +117,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
+            let tag_name = tag_name(&next);
             if tag_name.name() == name && tag_name.namespace() == namespace {
                 return Some(Node::new(next));
             }
@@ -132,7 +141,7 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
+            let tag_name = tag_name(&next);
             if tag_name.name() == name && tag_name.namespace() == namespace {
                 return Some(Node::new(next));
             }
@@ -140,7 +149,7 @@ impl<'a> Node<'a> {
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
+            let tag_name = tag_name(child);
             if tag_name.name() == name && tag_name.namespace() == namespace {
                 return children.peeked.remove(ix).map(Node::new);
             }
@@ -148,7 +157,7 @@ impl<'a> Node<'a> {
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
+            let tag_name = tag_name(&child);
             if tag_name.name() == name && tag_name.namespace() == namespace {
                 return Some(Node::new(child));
             }
-- 
2.43.0


From 778317e36ff0729e82e7d0e3fe3a93828b2c1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:37 +0000
Subject: [PATCH 12/20] fix: keep the text around comments and processing
 instructions

---
 xsd-internal/src/ast/leaf_content.rs |  4 ++--
 xsd-internal/src/ast/root.rs         |  2 +-
 xsd/src/decode.rs                    | 23 +++++++++++++++++------
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1a4a835..965657f 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -50,7 +50,7 @@ impl LeafContent {
                 let inner = literal.from_str_impl();
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &node.text()?;
                         #inner
                     }
                 }
@@ -62,7 +62,7 @@ impl LeafContent {
             LeafContent::Fixed(fixed) => {
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &node.text()?;
                         if val != #fixed {
                             return Err(::xsd::decode::FromXmlError::FixedMismatch {
                                 expected: #fixed,
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 04926b4..5977f87 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -261,7 +261,7 @@ impl Root {
             Root::Enum(_) => {
                 quote! {
                     {
-                        let val = node.text()?;
+                        let val = &node.text()?;
                         ::std::str::FromStr::from_str(val)?
                     }
                 }
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 21dcd3b..3fee62a 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::cell::RefCell;
 use std::collections::VecDeque;
 use std::ops::Range;
@@ -186,14 +187,24 @@ impl<'a> Node<'a> {
             })
     }
 
-    pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
+    pub fn text(&self) -> Result<Cow<'a, str>, FromXmlError> {
+        // comments and processing instructions are not part of the text, but split it
+        let mut children = self
+            .node
+            .children()
+            .filter(|child| child.is_element() || child.is_text())
+            .peekable();
+        if children.peek().is_some_and(|child| child.is_element()) {
+            return Err(FromXmlError::TextExpected {
                 name: self.node.tag_name().name().to_string(),
-            })
+            });
+        }
+
+        let mut text = Cow::Borrowed("");
+        for child in children.take_while(|child| child.is_text()) {
+            text += child.text().unwrap_or_default();
         }
+        Ok(text)
     }
 
     pub fn range(&self) -> Range<usize> {
-- 
2.43.0


From c4846c83720e291fb818c37e732e7d9a41191582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:42 +0000
Subject: [PATCH 13/20] fix: write the attributes of extended types

---
 xsd-internal/src/ast/attribute.rs          |  7 +--
 xsd-internal/src/ast/element_definition.rs | 57 +++++++++++++++++++++-
 2 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index eb1b58a..efc1518 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -33,7 +33,8 @@ impl Attribute {
         }
     }
 
-    pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
+    /// Set the attribute of `owner`, i.e. the value (`self` or a base of it) the attribute is in.
+    pub fn to_xml_impl(&self, owner: &TokenStream, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = ctx.get_xml_element_name(&self.name);
         let inner = match &self.content {
@@ -43,7 +44,7 @@ impl Attribute {
         };
         if self.is_optional {
             quote! {
-                let val = self.#name_ident.as_ref().map(|val| {
+                let val = #owner.#name_ident.as_ref().map(|val| {
                     #inner
                 });
                 if let Some(val) = val {
@@ -52,7 +53,7 @@ impl Attribute {
             }
         } else {
             quote! {
-                let val = &self.#name_ident;
+                let val = &#owner.#name_ident;
                 let val = #inner;
                 ctx.set_attr(#name_xml, val);
             }
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 2d49c5a..ca2d6f9 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,7 +1,9 @@
 use crate::ast::LeafDefinition;
+use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 
-use super::{Attribute, ElementContent};
+use super::{Attribute, ElementContent, Leaf, LeafContent, Root};
+use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 use quote::TokenStreamExt;
@@ -36,7 +38,11 @@ impl ElementDefinition {
     pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         for attr in &self.attributes {
-            ts.append_all(attr.to_xml_impl(ctx));
+            ts.append_all(attr.to_xml_impl(&quote!(self), ctx));
+        }
+        // the start of the element is written before the base element is
+        if let Some(ElementContent::Leaves(leaves)) = &self.content {
+            ts.append_all(base_attributes_to_xml_impl(leaves, &quote!(self), ctx));
         }
 
         // let the base element (<xs:extension base="" />) do the wrapping so that the base type
@@ -73,3 +79,50 @@ impl ElementDefinition {
         }
     }
 }
+
+/// Set the attributes of the base (<xs:extension base="" />) among the leaves of `owner`, if there
+/// is one.
+fn base_attributes_to_xml_impl(
+    leaves: &[Leaf],
+    owner: &TokenStream,
+    ctx: &SchemaContext,
+) -> TokenStream {
+    let mut ts = TokenStream::new();
+    for leaf in leaves.iter().filter(|leaf| leaf.is_virtual) {
+        let name_ident = escape_ident(&leaf.name.name.to_snake_case());
+        let owner = quote!(#owner.#name_ident);
+        ts.append_all(attributes_to_xml_impl(&leaf.definition, &owner, ctx));
+    }
+    ts
+}
+
+fn attributes_to_xml_impl(
+    definition: &LeafDefinition,
+    owner: &TokenStream,
+    ctx: &SchemaContext,
+) -> TokenStream {
+    let mut ts = TokenStream::new();
+    let LeafContent::Named(name) = &definition.content else {
+        return ts;
+    };
+    if let Some(Root::Element(def)) = ctx.resolve(name) {
+        if def.is_virtual {
+            return ts;
+        }
+        for attr in &def.attributes {
+            ts.append_all(attr.to_xml_impl(owner, ctx));
+        }
+        match &def.content {
+            Some(ElementContent::Leaf(name, definition)) => {
+                let name_ident = escape_ident(&name.name.to_snake_case());
+                let owner = quote!(#owner.#name_ident);
+                ts.append_all(attributes_to_xml_impl(definition, &owner, ctx));
+            }
+            Some(ElementContent::Leaves(leaves)) => {
+                ts.append_all(base_attributes_to_xml_impl(leaves, owner, ctx));
+            }
+            None => {}
+        }
+    }
+    ts
+}
-- 
2.43.0


From 853aac9be84f0cb3203be777c02db5bddb9ac693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:46 +0000
Subject: [PATCH 14/20] fix: read all repetitions of a sequence in a choice

---
 xsd-internal/src/ast/root.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 5977f87..6717730 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -282,6 +282,17 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
+                            let inner = if variant.is_vec() {
+                                quote! {{
+                                    let mut vec = Vec::new();
+                                    while #first_name::lookahead(node) {
+                                        vec.push(#inner);
+                                    }
+                                    vec
+                                }}
+                            } else {
+                                inner
+                            };
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
-- 
2.43.0


From c193add81d542f4c0aa22a9e25cc467e6227efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:58 +0000
Subject: [PATCH 15/20] fix: give the types and fields of groups distinct names

---
 xsd-internal/src/xsd/context.rs        |  4 ++++
 xsd-internal/src/xsd/parse/choice.rs   |  1 +
 xsd-internal/src/xsd/parse/mod.rs      | 33 ++++++++++++++++++++++++--
 xsd-internal/src/xsd/parse/sequence.rs |  1 +
 4 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index fa0e956..26d02c6 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -72,6 +72,10 @@ impl<'input> Context<'input> {
         self.roots.insert(name, root);
     }
 
+    pub fn has_root(&self, name: &Name) -> bool {
+        self.roots.contains_key(name)
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..caa1ebf 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -70,5 +70,6 @@ where
         variants.push(variant);
     }
 
+    super::deduplicate_virtual_names(&mut variants);
     Ok(variants)
 }
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 3b110cd..4a8cad8 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -14,7 +14,7 @@ use inflector::Inflector;
 use super::context::Context;
 use super::error::XsdError;
 use super::node::Node;
-use crate::ast::Name;
+use crate::ast::{Leaf, Name};
 
 fn derive_virtual_name<'a, 'input, 'b>(
     names: impl IntoIterator<Item = &'b Name> + Clone,
@@ -54,7 +54,36 @@ where
         }
     }
 
-    ctx.get_node_name(&virtual_name, false)
+    if virtual_name.is_empty() {
+        virtual_name.push_str("Group");
+    }
+
+    // do not replace a previously added type
+    let mut name = ctx.get_node_name(&virtual_name, false);
+    let mut count = 1;
+    while !shorten && ctx.has_root(&name) {
+        count += 1;
+        name = ctx.get_node_name(&format!("{}{}", virtual_name, count), false);
+    }
+    name
+}
+
+/// Make sure that groups don't have the same name as one of their siblings.
+fn deduplicate_virtual_names(leaves: &mut [Leaf]) {
+    for i in 0..leaves.len() {
+        let mut count = 1;
+        let mut name = leaves[i].name.name.clone();
+        while leaves[i].is_virtual
+            && leaves
+                .iter()
+                .enumerate()
+                .any(|(j, leaf)| i != j && leaf.name.name.to_snake_case() == name.to_snake_case())
+        {
+            count += 1;
+            name = format!("{}{}", leaves[i].name.name, count);
+        }
+        leaves[i].name.name = name;
+    }
 }
 
 fn derive_mutal_prefix<'a>(names: impl IntoIterator<Item = &'a str>) -> Option<String> {
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..65387ed 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -100,5 +100,6 @@ where
         leaves.push(leaf);
     }
 
+    super::deduplicate_virtual_names(&mut leaves);
     Ok(leaves)
 }
-- 
2.43.0


From 5d037d3fe532e36e77c10cad7aa67850c47e9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 16/20] fix: look past required groups that can be empty

---
 xsd-internal/src/ast/leaf.rs | 12 ++++++++++++
 xsd-internal/src/ast/root.rs | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 001d79c..e046001 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -38,6 +38,18 @@ impl Leaf {
         self.min_occurs == MinOccurs(0)
     }
 
+    /// Whether the leaf is optional, or a group that can be satisfied without any element.
+    pub fn is_emptiable(&self, ctx: &SchemaContext) -> bool {
+        self.is_optional()
+            || match &self.definition.content {
+                LeafContent::Named(name) if self.is_virtual => ctx
+                    .elements
+                    .get(name)
+                    .is_some_and(|root| root.is_emptiable(ctx)),
+                _ => false,
+            }
+    }
+
     pub fn is_vec(&self) -> bool {
         match self.max_occurs {
             MaxOccurs::Unbounded => true,
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 6717730..ca1ba39 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -337,6 +337,17 @@ impl Root {
         }
     }
 
+    /// Whether a group can be satisfied without any element.
+    pub fn is_emptiable(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            Root::Element(ElementDefinition {
+                content: Some(ElementContent::Leaves(leaves)),
+                ..
+            }) => leaves.iter().all(|leaf| leaf.is_emptiable(ctx)),
+            _ => false,
+        }
+    }
+
     pub fn lookahead_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             Root::Leaf(_) => {
@@ -360,7 +371,7 @@ impl Root {
                             return None;
                         }
                         // the members of an `xs:all` can start with any of them
-                        *prev_required = !leaf.is_unordered && !leaf.is_optional();
+                        *prev_required = !leaf.is_unordered && !leaf.is_emptiable(ctx);
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From 17eb35371e6c4f35b194a40be207def8281fd387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:18 +0000
Subject: [PATCH 17/20] fix: parse circular includes and imports once

---
 xsd-internal/src/xsd/context.rs |  4 +++
 xsd-internal/src/xsd/schema.rs  | 48 ++++++++++++++++++++++-----------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 26d02c6..0987a82 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// The schema files that have already been (or currently are) parsed.
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -85,6 +88,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..94db74f 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -1,8 +1,8 @@
-use std::collections::HashSet;
+use std::collections::{HashMap, HashSet};
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::path::{Path, PathBuf};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -17,6 +17,7 @@ use roxmltree::{Document, TextPos};
 #[derive(Debug)]
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
+    pub(crate) files: HashSet<PathBuf>,
     pub(crate) context: SchemaContext,
 }
 
@@ -69,18 +70,22 @@ impl Schema {
 
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
-            ParseError::Schema(err) => err,
-            ParseError::Xsd(err) => {
-                let pos = err
-                    .range()
-                    .map(|range| doc.text_pos_at(range.start))
-                    .unwrap_or_else(|| TextPos { row: 0, col: 0 });
-                SchemaError::Xsd {
-                    file: path.to_string_lossy().to_string(),
-                    row: pos.row,
-                    col: pos.col,
-                    err: Box::new(err),
+        let mut shared = shared.unwrap_or_default();
+        shared.files.insert(canonical_path(&path));
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| {
+            match err {
+                ParseError::Schema(err) => err,
+                ParseError::Xsd(err) => {
+                    let pos = err
+                        .range()
+                        .map(|range| doc.text_pos_at(range.start))
+                        .unwrap_or_else(|| TextPos { row: 0, col: 0 });
+                    SchemaError::Xsd {
+                        file: path.to_string_lossy().to_string(),
+                        row: pos.row,
+                        col: pos.col,
+                        err: Box::new(err),
+                    }
                 }
             }
         })
@@ -112,15 +117,21 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                // already merged, or about to be (circular includes)
+                let shared = ctx.take_shared();
+                if shared.files.contains(&canonical_path(&path)) {
+                    ctx.set_shared(shared);
+                    continue;
+                }
+
                 // merge imports
-                let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
+                let mut schema = Schema::parse_file_with_context(path, Some(shared))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
@@ -142,6 +153,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
@@ -326,6 +338,10 @@ impl Schema {
     }
 }
 
+fn canonical_path(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From 2a3b4c9f20a6a2aa20f5dfc318f093d3867182de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 18/20] fix: do not refer to the error of an enumeration's
 FromStr as Self::Err

An enumeration value that becomes the variant Err makes Self::Err
ambiguous, so that the generated code does not compile.
---
 xsd-internal/src/ast/root.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index ca1ba39..26bfeee 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -109,7 +109,7 @@ impl Root {
                     impl ::std::str::FromStr for #root_name {
                         type Err = ::xsd::decode::FromXmlError;
 
-                        fn from_str(s: &str) -> Result<Self, Self::Err> {
+                        fn from_str(s: &str) -> Result<Self, ::xsd::decode::FromXmlError> {
                             Ok(match s {
                                 #(#from_str_variants,)*
                                 _ => return Err(::xsd::decode::FromXmlError::InvalidVariant {
-- 
2.43.0


From 5f126731a7f4a4f71e6d8694c8cbf25937173095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:03 +0000
Subject: [PATCH 19/20] fix: escape names that start with a digit after
 conversion

The XML names _1 and __ become 1 and an empty string, for which no
identifier can be created.
---
 xsd-internal/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index f8ed3ed..c79759f 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -12,6 +12,9 @@ pub fn escape_ident(name: &str) -> syn::Ident {
         | "virtual" | "yield" => {
             format_ident!("r#{}", name)
         }
+        "" => format_ident!("__"),
+        // an XML name can start with an underscore followed by a digit
+        _ if name.starts_with(char::is_numeric) => format_ident!("_{}", name),
         _ => format_ident!("{}", name),
     }
 }
-- 
2.43.0


From d077767e02cf3bd0947d3644ff1f69afe85bbb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:42 +0000
Subject: [PATCH 20/20] fix: report unsupported attributes of prohibited
 attribute declarations

---
 xsd-internal/src/xsd/parse/attribute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 854ca80..e82c061 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -59,7 +59,10 @@ where
     let is_optional = match node.attribute("use").map(|attr| attr.value()).as_deref() {
         Some("required") => false,
         Some("optional") | None => true,
-        Some("prohibited") => return Ok(None),
+        Some("prohibited") => {
+            node.prevent_unvisited_attributes()?;
+            return Ok(None);
+        }
         Some(val) => {
             return Err(XsdError::UnsupportedAttributeValue {
                 name: "use".to_string(),
-- 
2.43.0

