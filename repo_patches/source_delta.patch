From 11bd25cbb15e9ed202edabd182c18d91f6b13054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:09 +0000
Subject: [PATCH 1/9] fix: accept a pinned unsized field in types with lifetime
 parameters

The helper struct behind the generated Unpin impl put the fields that use
the lifetime parameters after the pinned fields, so a #[pin] field of an
unsized type was not last and the program was rejected.
---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..60aee5a 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -825,8 +825,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
+                    // The pinned fields must come last, since the last one may be unsized.
                     #(#lifetime_fields,)*
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From 65dc4b3341b0455ff77cebc2225462551a5318d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:01 +0000
Subject: [PATCH 2/9] fix: accept pub(self) and pub(in self) visibilities

The receiver replacement turned the module path of these visibilities into
`__self`, so that declarations using them were rejected.
---
 pin-project-internal/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..9d2b969 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -330,6 +330,10 @@ impl VisitMut for ReplaceReceiver<'_> {
         }
     }
 
+    fn visit_visibility_mut(&mut self, _: &mut Visibility) {
+        // `self` in `pub(self)` and `pub(in self)` is a module, not a receiver.
+    }
+
     fn visit_item_mut(&mut self, item: &mut Item) {
         match item {
             // Visit `macro_rules!` because locally defined macros can refer to `self`.
-- 
2.43.0


From 755b74b53c64cf8557294e1195ef3ba218b1e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:36 +0000
Subject: [PATCH 3/9] fix: accept fields whose types bind a lifetime named like
 the generated one

---
 .../src/pin_project/derive.rs                 | 27 ++++++++++++++++---
 pin-project-internal/src/utils.rs             |  9 +++++--
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 60aee5a..97d5b88 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -1,5 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::iter;
+
 use proc_macro2::{Delimiter, Group, Span, TokenStream};
 use quote::{ToTokens as _, format_ident, quote, quote_spanned};
 use syn::{
@@ -30,7 +32,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            let fields = iter::once(&mut input.fields);
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                fields,
+                Struct,
+            )?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +49,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            let fields = input.variants.iter_mut().map(|v| &mut v.fields);
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                fields,
+                Enum,
+            )?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -191,11 +209,12 @@ struct Context<'a> {
 }
 
 impl<'a> Context<'a> {
-    fn new(
+    fn new<'b>(
         attrs: &'a [Attribute],
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        fields: impl Iterator<Item = &'b mut Fields>,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -210,7 +229,7 @@ impl<'a> Context<'a> {
         }
 
         let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
+        determine_lifetime_name(&mut lifetime_name, generics, fields);
         let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
 
         let ty_generics = generics.split_for_impl().1;
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 9d2b969..dbfaf90 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -5,7 +5,7 @@ use std::mem;
 use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{
-    Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
+    Attribute, ExprPath, ExprStruct, Fields, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
     parse::{Parse, ParseBuffer, ParseStream},
@@ -25,7 +25,11 @@ macro_rules! parse_quote_spanned {
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
 /// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+pub(crate) fn determine_lifetime_name<'a>(
+    lifetime_name: &mut String,
+    generics: &mut Generics,
+    fields: impl Iterator<Item = &'a mut Fields>,
+) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -38,6 +42,7 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
 
     let mut lifetimes = CollectLifetimes(vec![]);
     lifetimes.visit_generics_mut(generics);
+    fields.for_each(|fields| lifetimes.visit_fields_mut(fields));
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0


From 1a46a7cd7ff41e9462fbe7f8c1183e88009e67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:02 +0000
Subject: [PATCH 4/9] fix: keep a local variable __self in a pinned_drop body
 apart from self

---
 pin-project-internal/src/pinned_drop.rs | 10 +++++-----
 pin-project-internal/src/utils.rs       |  8 +++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 0264dad..f18e762 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -3,12 +3,12 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens as _, format_ident, quote};
 use syn::{
-    Error, FnArg, GenericArgument, Ident, ImplItem, ItemImpl, Pat, PatIdent, PatType, Path,
-    PathArguments, Result, ReturnType, Signature, Token, Type, TypePath, TypeReference,
-    parse_quote, spanned::Spanned as _, token::Colon, visit_mut::VisitMut as _,
+    Error, FnArg, GenericArgument, ImplItem, ItemImpl, Pat, PatIdent, PatType, Path, PathArguments,
+    Result, ReturnType, Signature, Token, Type, TypePath, TypeReference, parse_quote,
+    spanned::Spanned as _, token::Colon, visit_mut::VisitMut as _,
 };
 
-use crate::utils::{ReplaceReceiver, SliceExt as _};
+use crate::utils::{ReplaceReceiver, SliceExt as _, receiver_ident};
 
 pub(crate) fn attribute(args: &TokenStream, mut input: ItemImpl) -> TokenStream {
     let res = (|| -> Result<()> {
@@ -196,7 +196,7 @@ fn expand_impl(item: &mut ItemImpl) {
             attrs: vec![],
             by_ref: None,
             mutability: receiver.mutability,
-            ident: Ident::new("__self", receiver.self_token.span()),
+            ident: receiver_ident(receiver.self_token.span()),
             subpat: None,
         }));
         drop_inner.sig.inputs[0] = FnArg::Typed(PatType {
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index dbfaf90..a18bf9c 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -373,7 +373,13 @@ fn contains_fn(tokens: TokenStream) -> bool {
 pub(crate) fn prepend_underscore_to_self(ident: &mut Ident) -> bool {
     let modified = ident == "self";
     if modified {
-        *ident = Ident::new("__self", ident.span());
+        *ident = receiver_ident(ident.span());
     }
     modified
 }
+
+/// The name that replaces `self`. Uses mixed-site hygiene so that a local
+/// variable of the same name in the user's code is not confused with it.
+pub(crate) fn receiver_ident(span: Span) -> Ident {
+    Ident::new("__self", Span::mixed_site().located_at(span))
+}
-- 
2.43.0


From 271e013a613a70e5f4fd5de4f559f86b2bdeeda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 5/9] fix: report unexpected items in a #[pinned_drop] impl
 instead of panicking

---
 pin-project-internal/src/pinned_drop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index f18e762..6095f27 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -93,7 +93,7 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-        _ => unreachable!("unexpected ImplItem"),
+        item => bail!(item, "expected a definition of method `drop`"),
     })
 }
 
-- 
2.43.0


From 33b48606fbb684d6505056775c9c8a315fc1018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:25 +0000
Subject: [PATCH 6/9] fix: reject `default fn drop` in a #[pinned_drop] impl
 instead of panicking

---
 pin-project-internal/src/pinned_drop.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 6095f27..c188242 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -90,6 +90,9 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             bail!(item, "type `{}` is not a member of trait `PinnedDrop`", item.ident)
         }
         ImplItem::Fn(method) => {
+            if method.defaultness.is_some() {
+                bail!(method.defaultness, "method `drop` may not be `default`");
+            }
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-- 
2.43.0


From e388de5ac46699c0eb3ff6dd52955b47dea69ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:48 +0000
Subject: [PATCH 7/9] fix: treat #[r#pin] as #[pin] instead of silently
 ignoring it

rustc takes `r#pin` and `pin` for the same helper attribute, so `#[r#pin]`
was accepted but the field was not pinned.
---
 pin-project-internal/src/pin_project/args.rs |  4 ++--
 pin-project-internal/src/utils.rs            | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index 00593dc..129d7ef 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -9,7 +9,7 @@ use syn::{
 };
 
 use super::PIN;
-use crate::utils::{ParseBufferExt as _, SliceExt as _};
+use crate::utils::{ParseBufferExt as _, SliceExt as _, path_is_ident};
 
 pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
     // `(__private(<args>))` -> `<args>`
@@ -32,7 +32,7 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         bail!(attr, "duplicate #[pin_project] attribute");
     }
 
-    let mut attrs = attrs.iter().filter(|attr| attr.path().is_ident(PIN));
+    let mut attrs = attrs.iter().filter(|attr| path_is_ident(attr.path(), PIN));
 
     let prev = if let Some(attr) = attrs.next() {
         (attr, syn::parse2::<Input>(attr.meta.require_list()?.tokens.clone())?.0)
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index a18bf9c..f04f808 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -8,6 +8,7 @@ use syn::{
     Attribute, ExprPath, ExprStruct, Fields, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
+    ext::IdentExt as _,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -110,6 +111,11 @@ fn respan_tokens(tokens: TokenStream, span: Span) -> TokenStream {
         .collect()
 }
 
+/// Like `Path::is_ident`, but `r#ident` is the same identifier as `ident`.
+pub(crate) fn path_is_ident(path: &Path, ident: &str) -> bool {
+    path.get_ident().map_or(false, |i| i.unraw() == ident)
+}
+
 // -----------------------------------------------------------------------------
 // extension traits
 
@@ -126,7 +132,7 @@ impl SliceExt for [Attribute] {
     fn position_exact(&self, ident: &str) -> Result<Option<usize>> {
         self.iter()
             .try_fold((0, None), |(i, mut prev), attr| {
-                if attr.path().is_ident(ident) {
+                if path_is_ident(attr.path(), ident) {
                     if prev.replace(i).is_some() {
                         bail!(attr, "duplicate #[{}] attribute", ident);
                     }
@@ -138,7 +144,7 @@ impl SliceExt for [Attribute] {
     }
 
     fn find(&self, ident: &str) -> Option<&Attribute> {
-        self.iter().position(|attr| attr.path().is_ident(ident)).map(|i| &self[i])
+        self.iter().find(|attr| path_is_ident(attr.path(), ident))
     }
 }
 
-- 
2.43.0


From bda6b834d4fd846d9b392ec5a77e41bf8ab8c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:53 +0000
Subject: [PATCH 8/9] fix: reject #[repr(r#packed)] and #[r#repr(packed)] like
 #[repr(packed)]

---
 pin-project-internal/src/pin_project/derive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 97d5b88..2791421 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -16,7 +16,7 @@ use super::{
 };
 use crate::utils::{
     ReplaceReceiver, SliceExt as _, Variants, determine_lifetime_name, determine_visibility,
-    insert_lifetime_and_bound,
+    insert_lifetime_and_bound, path_is_ident,
 };
 
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
@@ -1061,9 +1061,9 @@ fn make_proj_impl(
 fn ensure_not_packed(orig: &OriginalType<'_>, fields: Option<&Fields>) -> Result<TokenStream> {
     for attr in orig.attrs {
         if let Meta::List(ref list) = attr.meta {
-            if list.path.is_ident("repr") {
+            if path_is_ident(&list.path, "repr") {
                 for repr in list.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)? {
-                    if repr.path().is_ident("packed") {
+                    if path_is_ident(repr.path(), "packed") {
                         let msg = if fields.is_none() {
                             // #[repr(packed)] cannot be apply on enums and will be rejected by rustc.
                             // However, we should not rely on the behavior of rustc that rejects this.
-- 
2.43.0


From 4ce72ffdff820c977604603c8151998602d29c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:04 +0000
Subject: [PATCH 9/9] fix: do not reuse the name of a raw lifetime (`'r#pin`)
 for the generated lifetime

---
 pin-project-internal/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index f04f808..ec41edf 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -35,7 +35,8 @@ pub(crate) fn determine_lifetime_name<'a>(
 
     impl VisitMut for CollectLifetimes {
         fn visit_lifetime_param_mut(&mut self, def: &mut LifetimeParam) {
-            self.0.push(def.lifetime.to_string());
+            // `'r#a` and `'a` are the same lifetime.
+            self.0.push(format!("'{}", def.lifetime.ident.unraw()));
         }
     }
 
-- 
2.43.0

