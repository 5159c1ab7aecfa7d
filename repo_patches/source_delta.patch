From 6ccbb4f39dca2290b36c975f697b61f10b1e171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:23 +0000
Subject: [PATCH 01/11] fix: report a slot whose name is not a component
 instead of panicking

`Com { slot:foo; }` panicked with "called `slots_to_tokens` on non-slot element".
---
 leptos-mview-core/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..91d653a 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -344,7 +344,8 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(el.tag().span(), "slot name must be in UpperCamelCase");
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From cfdcc09afd495551b0edadfd2a01377fdaaf2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 02/11] fix: report names that cannot be raw identifiers
 instead of panicking

`_`, `self`, `Self`, `super` and `crate` have no raw form, so `Ident::new_raw`
panicked for inputs like `self;`, `Com clone:self;`, `Com -=1;` or
`Com { slot:Super; }`.
---
 leptos-mview-core/src/ast/ident.rs | 15 ++++++++++++++-
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..bf8982c 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -102,7 +102,20 @@ impl KebabIdent {
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        raw_ident_or_emit(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier.
+///
+/// A few names are not allowed to be raw identifiers: an error is emitted for
+/// those, and a placeholder is returned.
+pub fn raw_ident_or_emit(name: &str, span: Span) -> syn::Ident {
+    if matches!(name, "_" | "self" | "Self" | "super" | "crate") {
+        emit_error!(span, "`{}` cannot be used as an identifier", name);
+        syn::Ident::new("__invalid_identifier", span)
+    } else {
+        syn::Ident::new_raw(name, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 91d653a..8842106 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -12,7 +12,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    raw_ident_or_emit, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -366,7 +366,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = raw_ident_or_emit(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From c888bcaac924dd94e8b02723d7c2f9ccfcfb1e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 03/11] fix: report slots inside html elements instead of
 dropping them

`div { slot:Tab { "a" } }` silently lost the slot and everything in it.
---
 leptos-mview-core/src/expand.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 8842106..63a0c1f 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,6 +113,15 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(children) = element.children() {
+        for slot in children.slot_children() {
+            emit_error!(
+                slot.tag().span(),
+                "slots should be inside a parent that supports slots"
+            );
+        }
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From 6a4f878f3be2bf7581cbad36efc96c54f0c327f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 04/11] fix: report closure arguments on html elements instead
 of dropping them

`div |x| { {x} }` silently lost the `|x|`.
---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 63a0c1f..c6d1127 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,6 +113,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are only supported on components and slots"
+        );
+    }
+
     if let Some(children) = element.children() {
         for slot in children.slot_children() {
             emit_error!(
-- 
2.43.0


From 70ff9ea242f15ac247c6b4da3a927c3e1e958b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 05/11] fix: keep closure arguments of components without
 children

`Com |x| {}` and `Com |x| { slot:Tab; }` silently lost the `|x|`.
---
 leptos-mview-core/src/expand.rs             | 4 ++--
 leptos-mview-core/src/expand/subroutines.rs | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index c6d1127..dc64b1e 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -277,8 +277,8 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
         let mut it = children.element_children().peekable();
         // need to check that there are any element children at all,
         // as components that accept slots may not accept children.
-        it.peek()
-            .is_some()
+        // closure arguments always make a closure, even if it has no children.
+        (it.peek().is_some() || element.children_args().is_some())
             .then(|| component_children_tokens(it, element.children_args(), &clones))
     });
 
diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..8751b16 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -308,7 +308,9 @@ pub(super) fn component_children_tokens<'a>(
     let child_span = children
         .peek()
         // not sure why `child.span()` is calling `syn::spanned::Spanned` instead
-        .map_or_else(Span::call_site, |child| (*child).span());
+        .map(|child| (*child).span())
+        .or_else(|| args.map(Spanned::span))
+        .unwrap_or_else(Span::call_site);
 
     // span call site if there are no args so that the children don't get all the
     // `std` `vec!` etc docs.
-- 
2.43.0


From 16212428ae1766ecf98fa481ccbcb70d0ca59cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 06/11] fix: pass slots nested in a slot to that slot instead
 of dropping them

`Com { slot:A { slot:B { "b" } } }` silently lost `slot:B` and its children.
---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index dc64b1e..29cc872 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -297,6 +297,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From 2b7fe740fc7c2bd05a555f3fddd3c6aefdecac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 07/11] fix: report modifiers on component directives that have
 none

`Com class:a:b={c};` (also style:, attr:, prop:) silently ignored `:b`, while the
same on an element is an error.
---
 leptos-mview-core/src/expand/subroutines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 8751b16..ac790e3 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -375,6 +375,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
     let path = match &*dir.to_string() {
         "class" | "style" => {
             // avoid making it string coloured
+            emit_error_if_modifier(directive.modifier.as_ref());
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             // to avoid spanning the directive to the module
@@ -384,6 +385,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "attr" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
@@ -413,6 +415,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let prop = directive.key.to_ident_or_emit();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-- 
2.43.0


From e4d31c9d1ac33a5eabdcb82a049bc5539d2eea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 08/11] fix: forward `prop:` on components with
 `property::prop(key, value)`

`Com prop:value={v};` expanded to `property::value(v)`, which does not exist.
---
 leptos-mview-core/src/expand/subroutines.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index ac790e3..6a3b184 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -416,10 +416,12 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
         }
         "prop" => {
             emit_error_if_modifier(directive.modifier.as_ref());
-            let prop = directive.key.to_ident_or_emit();
+            // avoid making it string coloured
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
+            // to avoid spanning the directive to the module
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 73adbc35347c8e3b2d03c4f93c9fc8c88723a317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 09/11] fix: pass slots in order of first appearance

Slots of different names were collected in a `HashMap`, so the expansion of the
same view (and the evaluation order of the slots' props) differed between builds.
---
 leptos-mview-core/src/expand.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 29cc872..b70edf8 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -354,11 +352,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // collect by slot name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion, in order of first appearance.
+    // Not a hashmap, as its iteration order changes on every run.
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             emit_error!(el.tag().span(), "slot name must be in UpperCamelCase");
@@ -373,10 +372,10 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        match slot_children.iter_mut().find(|(name, _)| *name == slot_name) {
+            Some((_, slots)) => slots.push(slot_component),
+            None => slot_children.push((slot_name, vec![slot_component])),
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From e8cc6a2208e8233f8626b6f57964b55af99787ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 10/11] fix: locate the missing children block after closure
 arguments

`mview! { Com |x| }` reported it on the whole macro invocation.
---
 leptos-mview-core/src/ast/element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/element.rs b/leptos-mview-core/src/ast/element.rs
index 57c545f..6cecc0d 100644
--- a/leptos-mview-core/src/ast/element.rs
+++ b/leptos-mview-core/src/ast/element.rs
@@ -3,6 +3,7 @@ use proc_macro_error2::emit_error;
 use quote::{ToTokens, TokenStreamExt};
 use syn::{
     parse::{Parse, ParseStream},
+    spanned::Spanned,
     Token,
 };
 
@@ -86,8 +87,10 @@ impl Parse for Element {
                 Some(parse::parenthesized::<Children>(input)?.1)
             } else {
                 // continue trying to parse as if there are no children
+                // avoid call-site span
+                let span = if input.is_empty() { args.span() } else { input.span() };
                 emit_error!(
-                    input.span(),
+                    span,
                     "expected children block after closure arguments"
                 );
                 None
-- 
2.43.0


From 69657cf76ecb536ae59853f9950e1a6e6cc1aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:06 +0000
Subject: [PATCH 11/11] fix: accept component paths with a leading `::`

`Tag` parses them, but `Child` rejected `::path::Com;` as an invalid child.
---
 leptos-mview-core/src/ast/children.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..93a4329 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,7 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0

