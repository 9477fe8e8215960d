From e91a1ce6475e17ff8f3a959a33319ac8568a2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 01/16] fix: consume the `mut` keyword of `static mut`
 declarations

---
 src/parse_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 45af19e..7bbf6a9 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -30,7 +30,9 @@ pub(crate) fn parse_const_or_static(
     let tk_mut = match tokens.peek() {
         Some(TokenTree::Ident(ident)) if ident == "mut" => {
             assert!(!is_const, "`const mut` is not a valid declaration");
-            Some(ident.clone())
+            let tk_mut = ident.clone();
+            tokens.next();
+            Some(tk_mut)
         }
         _ => None,
     };
-- 
2.43.0


From c47d996b9b476cca180eb5c1c0df5dfeed275e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 02/16] fix: do not drop a leading `&` or lifetime of a
 non-self fn parameter

---
 src/parse_fn.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 83a94b7..3eb7c4b 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -93,6 +93,10 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
                 tk_self,
             })
         } else {
+            if tk_ref.is_some() || lifetime.is_some() {
+                panic!("cannot parse fn params: expected `self` after `&`");
+            }
+
             // TODO - handle non-ident argument names
             let param_name = parse_any_ident(&mut tokens, "fn param name");
             let tk_colon = parse_punct(&mut tokens, ':', "fn params");
-- 
2.43.0


From 860bf201e4efff0702891253c9e08f6859ff0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 03/16] fix: print the semicolon parsed after a struct with
 named fields

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index f60024d..473fe4e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1120,8 +1120,8 @@ impl ToTokens for Struct {
         } else {
             self.fields.to_tokens(tokens);
             self.where_clause.to_tokens(tokens);
-            self.tk_semicolon.to_tokens(tokens);
         }
+        self.tk_semicolon.to_tokens(tokens);
     }
 }
 
-- 
2.43.0


From 2ebf697d7f4e1cc8a30e33d6a02b3f8fdd3c2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:35 +0000
Subject: [PATCH 04/16] fix: do not drop tokens following the group of an
 attribute

---
 src/parse_utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 26388df..e349ae9 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -147,6 +147,13 @@ fn consume_attributes_with_inner(tokens: &mut TokenIter, expect_inner: bool) ->
             Some(TokenTree::Group(group)) => {
                 let tk_group = GroupSpan::new(group);
                 let value = group.stream().into_iter().collect();
+                attribute_tokens.next();
+                if let Some(token) = attribute_tokens.peek() {
+                    panic!(
+                        "cannot parse attribute: unexpected token {:?} after group",
+                        token
+                    );
+                }
                 AttributeValue::Group(tk_group, value)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '=' => {
-- 
2.43.0


From b158dd30b1babd56c9a98c3d211f279617e3c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 05/16] fix: do not drop the visibility marker of impl blocks
 and macros

---
 src/parse.rs      |  5 ++++-
 src/parse_impl.rs | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index b3677aa..4860fc8 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -1,7 +1,8 @@
 use crate::error::Error;
 use crate::parse_fn::consume_macro;
 use crate::parse_impl::{
-    consume_either_fn_type_const_static_impl, parse_const_or_static, parse_impl, parse_trait,
+    consume_either_fn_type_const_static_impl, panic_on_vis_marker, parse_const_or_static,
+    parse_impl, parse_trait,
 };
 use crate::parse_mod::{parse_mod, parse_use_declaration};
 use crate::parse_type::{
@@ -194,6 +195,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             Item::Trait(trait_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "impl" => {
+            panic_on_vis_marker(vis_marker);
             let impl_decl = parse_impl(tokens, attributes);
             Item::Impl(impl_decl)
         }
@@ -222,6 +224,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             )
         }
         Some(token) => {
+            panic_on_vis_marker(vis_marker);
             if let Some(macro_) = consume_macro(tokens, attributes) {
                 Item::Macro(macro_)
             } else {
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index 7bbf6a9..ba5400e 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -152,6 +152,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Trait(trait_decl)
                     }
                     Err(NotFunction::Impl) => {
+                        panic_on_vis_marker(vis_marker);
                         let impl_decl = parse_impl(tokens, attributes);
                         Item::Impl(impl_decl)
                     }
@@ -170,12 +171,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                 }
             }
             ident => {
-                if let Some(vis_marker) = vis_marker {
-                    panic!(
-                        "unsupported visibility marker `{}`",
-                        vis_marker.to_token_stream()
-                    );
-                }
+                panic_on_vis_marker(vis_marker);
                 match consume_macro(tokens, attributes.clone()) {
                     Some(macro_) => Item::Macro(macro_),
                     None => panic!("unsupported {} item `{}`", context, ident),
@@ -187,6 +183,16 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
     }
 }
 
+/// For items that cannot have a visibility marker, and thus nowhere to store it.
+pub(crate) fn panic_on_vis_marker(vis_marker: Option<VisMarker>) {
+    if let Some(vis_marker) = vis_marker {
+        panic!(
+            "unsupported visibility marker `{}`",
+            vis_marker.to_token_stream()
+        );
+    }
+}
+
 pub(crate) fn parse_impl_body(
     token_group: Group,
     allow_static: bool,
-- 
2.43.0


From e8589e2fd1edfe4a84d86adcd7c8c10f3008b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 06/16] fix: do not invent a comma missing between enum
 variants

---
 src/parse_type.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 642bf95..de4f58f 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -424,9 +424,14 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
             token => panic!("cannot parse enum variant: unexpected token {:?}", token),
         };
 
-        let enum_discriminant = consume_enum_discriminant(&mut tokens);
+        let enum_discriminant = consume_enum_discriminant(&mut tokens)?;
 
         let comma = consume_comma(&mut tokens);
+        if comma.is_none() {
+            if let Some(token) = tokens.peek() {
+                panic!("cannot parse enum variant: expected ',', got {:?}", token);
+            }
+        }
 
         variants.push(
             EnumVariant {
@@ -434,7 +439,7 @@ pub(crate) fn parse_enum_variants(tokens: TokenStream) -> Result<Punctuated<Enum
                 vis_marker,
                 name: variant_name,
                 fields: contents,
-                value: enum_discriminant?,
+                value: enum_discriminant,
             },
             comma,
         );
-- 
2.43.0


From 4e1b56493c7db8a04d8cd917052b2651071e6bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 07/16] fix: do not invent a comma missing after a `self`
 parameter

---
 src/parse_fn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parse_fn.rs b/src/parse_fn.rs
index 3eb7c4b..bf18cbe 100644
--- a/src/parse_fn.rs
+++ b/src/parse_fn.rs
@@ -112,6 +112,11 @@ fn parse_fn_params(tokens: TokenStream) -> Punctuated<FnParam> {
         };
 
         let comma = consume_comma(&mut tokens);
+        if comma.is_none() {
+            if let Some(token) = tokens.peek() {
+                panic!("cannot parse fn params: expected ',', got {:?}", token);
+            }
+        }
 
         fields.push(param, comma);
     }
-- 
2.43.0


From 7aa2805ace2d266a12156118f673f24ab02af9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 08/16] fix: do not drop a comma in place of a generic argument

---
 src/parse_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index de4f58f..38880a7 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -192,13 +192,13 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
             |tk| matches!(tk, TokenTree::Punct(punct) if punct.as_char() == ','),
             false,
         );
-        let comma = consume_comma(tokens);
 
         // Exit when end reached
         if arg_tokens.is_empty() {
             break;
         }
 
+        let comma = consume_comma(tokens);
         generic_args.push(parse_generic_arg(arg_tokens), comma);
     }
 
-- 
2.43.0


From e2081590a625c90aa90f478fd63c52113fa10724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:12 +0000
Subject: [PATCH 09/16] fix: recognize `::` when directly followed by another
 punctuation, as in `::<`

---
 src/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index e349ae9..4a193af 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -293,7 +293,7 @@ pub(crate) fn consume_colon2(tokens: &mut TokenIter) -> Option<[Punct; 2]> {
     if let Some(TokenTree::Punct(first)) = tokens.next() {
         if first.as_char() == ':' && first.spacing() == Spacing::Joint {
             if let Some(TokenTree::Punct(second)) = tokens.next() {
-                if second.as_char() == ':' && second.spacing() == Spacing::Alone {
+                if second.as_char() == ':' {
                     return Some([first, second]);
                 }
             }
-- 
2.43.0


From 600fa3a6d1e53fdba8483d65df0ee7b1f113c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:35 +0000
Subject: [PATCH 10/16] fix: do not split where-clause predicates at the `::`
 of a path

---
 src/parse_type.rs    | 31 +++++++++++++++++++++++--------
 src/types_edition.rs |  9 +--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 38880a7..16ee330 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -212,6 +212,28 @@ pub(crate) fn consume_generic_args(tokens: &mut TokenIter) -> Option<GenericArgL
     })
 }
 
+/// Consume the bounded type of a where-clause predicate, up to the `:` of its bound.
+pub(crate) fn consume_where_left_side(tokens: &mut TokenIter) -> Vec<TokenTree> {
+    let mut left_side = Vec::new();
+    loop {
+        left_side.extend(consume_stuff_until(
+            tokens,
+            |token| match token {
+                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
+                _ => false,
+            },
+            false,
+        ));
+
+        // The `::` of a path such as `T::Item` does not end the type
+        match consume_colon2(tokens) {
+            Some(colons) => left_side.extend(colons.map(TokenTree::Punct)),
+            None => break,
+        }
+    }
+    left_side
+}
+
 pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause> {
     let where_token = consume_ident(tokens, "where")?;
 
@@ -227,14 +249,7 @@ pub(crate) fn consume_where_clause(tokens: &mut TokenIter) -> Option<WhereClause
             _ => (),
         };
 
-        let left_side = consume_stuff_until(
-            tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = consume_where_left_side(tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct.clone(),
diff --git a/src/types_edition.rs b/src/types_edition.rs
index db7a2a2..b1c3e17 100644
--- a/src/types_edition.rs
+++ b/src/types_edition.rs
@@ -763,14 +763,7 @@ impl WhereClausePredicate {
     pub fn parse(tokens: TokenStream) -> Self {
         let mut tokens = tokens.into_iter().peekable();
 
-        let left_side = crate::parse_utils::consume_stuff_until(
-            &mut tokens,
-            |token| match token {
-                TokenTree::Punct(punct) if punct.as_char() == ':' => true,
-                _ => false,
-            },
-            false,
-        );
+        let left_side = crate::parse_type::consume_where_left_side(&mut tokens);
 
         let colon = match tokens.next() {
             Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => punct,
-- 
2.43.0


From cb75db53b6e58b0e38f861b66388ffa3ef3c00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:49 +0000
Subject: [PATCH 11/16] fix: do not end a generic bound at the '>' of an arrow

---
 src/parse_utils.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index 4a193af..dc50e5d 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -240,8 +240,11 @@ pub(crate) fn consume_stuff_until(
                 bracket_count += 1;
                 false
             }
-            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' && !prev_token_is_dash => {
-                bracket_count -= 1;
+            Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
+                // The '>' of an arrow neither closes a bracket nor ends the expression.
+                if !prev_token_is_dash {
+                    bracket_count -= 1;
+                }
                 false
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == '-' => true,
-- 
2.43.0


From db347850ccf260beefc85d2b94a8122e1338b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:02 +0000
Subject: [PATCH 12/16] fix: report unsupported enum discriminants in modules
 as errors instead of panicking

---
 src/parse.rs      |  4 ++--
 src/parse_impl.rs | 14 +++++++++-----
 src/parse_mod.rs  | 10 +++++-----
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index 4860fc8..bb84bcb 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -187,7 +187,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
             })
         }
         Some(TokenTree::Ident(keyword)) if keyword == "mod" => {
-            let mod_decl = parse_mod(tokens, attributes, vis_marker);
+            let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
             Item::Module(mod_decl)
         }
         Some(TokenTree::Ident(keyword)) if keyword == "trait" => {
@@ -221,7 +221,7 @@ pub fn consume_item(tokens: &mut Peekable<IntoIter>) -> Result<Item, Error> {
                 attributes,
                 vis_marker,
                 "fn/type/const/static/extern/extern crate",
-            )
+            )?
         }
         Some(token) => {
             panic_on_vis_marker(vis_marker);
diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index ba5400e..b24e691 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse_extern::{parse_extern_block, parse_extern_crate};
 use crate::parse_fn::{consume_fn, consume_macro, NotFunction};
 use crate::parse_mod::parse_mod;
@@ -126,8 +127,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
     context: &str, // for panic
-) -> Item {
-    if let Some(TokenTree::Ident(ident)) = tokens.peek() {
+) -> Result<Item, Error> {
+    let item = if let Some(TokenTree::Ident(ident)) = tokens.peek() {
         let keyword = ident.to_string();
         match keyword.as_str() {
             "type" => {
@@ -157,7 +158,7 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
                         Item::Impl(impl_decl)
                     }
                     Err(NotFunction::Mod) => {
-                        let mod_decl = parse_mod(tokens, attributes, vis_marker);
+                        let mod_decl = parse_mod(tokens, attributes, vis_marker)?;
                         Item::Module(mod_decl)
                     }
                     Err(NotFunction::ExternBlock) => {
@@ -180,7 +181,8 @@ pub(crate) fn consume_either_fn_type_const_static_impl(
         }
     } else {
         panic!("unsupported {} element: {:?}", context, tokens.peek())
-    }
+    };
+    Ok(item)
 }
 
 /// For items that cannot have a visibility marker, and thus nowhere to store it.
@@ -213,7 +215,9 @@ pub(crate) fn parse_impl_body(
             attributes,
             vis_marker,
             "impl",
-        ) {
+        )
+        .unwrap_or_else(|e| panic!("declaration in impl: {}", e))
+        {
             Item::Function(function) => ImplMember::AssocFunction(function),
             Item::Constant(const_) if const_.tk_const_or_static == "const" => {
                 // `const` can appear in impl/trait blocks.
diff --git a/src/parse_mod.rs b/src/parse_mod.rs
index a121b41..648d610 100644
--- a/src/parse_mod.rs
+++ b/src/parse_mod.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::parse::consume_item;
 use crate::parse_type::consume_item_name;
 use crate::parse_utils::{
@@ -13,7 +14,7 @@ pub(crate) fn parse_mod(
     tokens: &mut Peekable<IntoIter>,
     attributes: Vec<Attribute>,
     vis_marker: Option<VisMarker>,
-) -> Module {
+) -> Result<Module, Error> {
     let tk_unsafe = consume_ident(tokens, "unsafe");
     let tk_mod = parse_ident(tokens, "mod", "module declaration");
     let module_name = consume_item_name(tokens);
@@ -41,8 +42,7 @@ pub(crate) fn parse_mod(
             if tokens.peek().is_none() {
                 break;
             }
-            let item =
-                consume_item(&mut tokens).unwrap_or_else(|e| panic!("declaration in mod: {}", e));
+            let item = consume_item(&mut tokens)?;
             mod_members.push(item);
         }
         members = mod_members;
@@ -52,7 +52,7 @@ pub(crate) fn parse_mod(
         members = vec![];
     }
 
-    Module {
+    Ok(Module {
         attributes,
         vis_marker,
         tk_unsafe,
@@ -62,7 +62,7 @@ pub(crate) fn parse_mod(
         tk_braces,
         inner_attributes,
         members,
-    }
+    })
 }
 
 pub(crate) fn parse_use_declaration(
-- 
2.43.0


From d0f8467a64d2c533fe17fb747f8ef64945d28c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:35 +0000
Subject: [PATCH 13/16] fix: debug-printing a visibility marker never panics

VisMarker's fields are public, and its Debug impl panicked (unreachable!)
when the second token was not a group.
---
 src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 473fe4e..4875e70 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -979,7 +979,11 @@ impl std::fmt::Debug for VisMarker {
                 }
                 list.finish()
             }
-            _ => unreachable!(),
+            Some(token) => {
+                let mut list = f.debug_tuple(&self.tk_token1.to_string());
+                list.field(&TokenRef(token));
+                list.finish()
+            }
         }
     }
 }
-- 
2.43.0


From e5e501beedea5ba83ee56eda5226d077a3c7b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 14/16] fix: end the value of a constant at its semicolon,
 whatever angle brackets it has

In an expression `<` and `>` can be operators: `const X: u8 = 1 << 3;` panicked, and
`const B: bool = 1 < 2; const C: bool = 2 > 1;` was read as one constant.
---
 src/parse_impl.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parse_impl.rs b/src/parse_impl.rs
index b24e691..b9d0651 100644
--- a/src/parse_impl.rs
+++ b/src/parse_impl.rs
@@ -49,11 +49,15 @@ pub(crate) fn parse_const_or_static(
 
     let tk_equals = consume_punct(tokens, '=');
 
-    let value_tokens = consume_stuff_until(
-        tokens,
-        |tt| matches!(tt, TokenTree::Punct(punct) if punct.as_char() == ';'),
-        true,
-    );
+    // In an expression, `<` and `>` can be operators: the value ends at the first `;`.
+    let mut value_tokens = Vec::new();
+    loop {
+        match tokens.peek() {
+            None => break,
+            Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => break,
+            Some(_) => value_tokens.push(tokens.next().unwrap()),
+        }
+    }
     let initializer = if value_tokens.is_empty() {
         None
     } else {
-- 
2.43.0


From cac1580fa51837bd40d8683ed7a9cb1a2a130489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:54 +0000
Subject: [PATCH 15/16] fix: a tuple field of type `crate::Foo` has no
 visibility marker

`struct A(crate::Foo);` was read as a field with visibility `crate` and type `::Foo`.
---
 src/parse_utils.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index dc50e5d..89c0abe 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -210,10 +210,21 @@ pub(crate) fn consume_vis_marker(tokens: &mut TokenIter) -> Option<VisMarker> {
                 }),
             }
         }
-        Some(TokenTree::Ident(ident)) if ident == "crate" => Some(VisMarker {
-            tk_token1: tokens.next().unwrap(),
-            tk_token2: None,
-        }),
+        Some(TokenTree::Ident(ident)) if ident == "crate" => {
+            let before_crate = tokens.clone();
+            let crate_token = tokens.next().unwrap();
+            match tokens.peek() {
+                // Type such as `crate::Foo` in a tuple field
+                Some(TokenTree::Punct(punct)) if punct.as_char() == ':' => {
+                    *tokens = before_crate;
+                    None
+                }
+                _ => Some(VisMarker {
+                    tk_token1: crate_token,
+                    tk_token2: None,
+                }),
+            }
+        }
         _ => None,
     }
 }
-- 
2.43.0


From d6de364bfec4c44a42ae523ffb50e647e7125d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:19 +0000
Subject: [PATCH 16/16] fix: accept a tuple field whose parenthesised type
 follows `pub`

`struct A(pub (u8, u8));` took the type as part of the visibility marker and panicked.
---
 src/parse_type.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/parse_type.rs b/src/parse_type.rs
index 16ee330..1e4011b 100644
--- a/src/parse_type.rs
+++ b/src/parse_type.rs
@@ -348,9 +348,23 @@ pub(crate) fn parse_tuple_fields(token_group: Group) -> TupleFields {
         }
 
         let attributes = consume_outer_attributes(&mut tokens);
-        let vis_marker = consume_vis_marker(&mut tokens);
+        let mut vis_marker = consume_vis_marker(&mut tokens);
 
-        let ty_tokens = consume_field_type(&mut tokens);
+        // In `pub (A, B)` the parentheses are the field's type, not part of the visibility
+        let at_end = match tokens.peek() {
+            None => true,
+            Some(TokenTree::Punct(punct)) => punct.as_char() == ',',
+            Some(_) => false,
+        };
+        let ty_group = match &mut vis_marker {
+            Some(vis_marker) if at_end => vis_marker.tk_token2.take(),
+            _ => None,
+        };
+
+        let ty_tokens = match ty_group {
+            Some(group) => vec![group],
+            None => consume_field_type(&mut tokens),
+        };
 
         let comma = consume_comma(&mut tokens);
 
-- 
2.43.0

