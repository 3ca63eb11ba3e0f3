From 7876b0038e360b97aa41fc83a8eaacae022ce5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:39 +0000
Subject: [PATCH 01/13] fix: do not add the same implied trait twice in
 enum_derive

---
 src/enum_derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..df0b8df 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From ca7282517a59dd226fc40f76830dbcef70bcdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 02/13] fix: leave return and ? in async blocks alone

---
 src/auto_enum/visitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..d09c836 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,11 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` in async blocks leave only the async block.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From 19c43b7ecc68dd461378fb92d06739b646bdf291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 03/13] fix: collect each trait named by impl Trait once

---
 src/auto_enum/type_analysis.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..6e15806 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -25,7 +25,11 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
                     if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
+                        && !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
                     {
                         self.has_impl_trait = true;
                         self.traits.push(ty);
-- 
2.43.0


From 5689edae6ed15266c68fd62298b8947a2e6065d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 04/13] fix: drop the impl Trait type of a let whose traits are
 all given as arguments

---
 src/auto_enum/type_analysis.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 6e15806..0fc206a 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,15 +24,16 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self
+                    if TRAITS.contains(&&*ty_trimmed) {
+                        self.has_impl_trait = true;
+                        if !self
                             .args
                             .iter()
                             .chain(&*self.traits)
                             .any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
-                        self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1ba9e99b8138b01e450b453a5258f5150a9836d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 05/13] fix: follow Rust's scoping of breaks in for iterators
 and under shadowed labels

---
 src/auto_enum/expr.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..3d363ec 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -160,6 +160,11 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 _ => false,
             }
         }
+
+        /// Returns `true` if `other` is the label of an inner loop that hides the label of this loop.
+        fn is_shadowed_by(&self, other: Option<&Label>) -> bool {
+            other.map_or(false, |other| self.compare_labels(Some(&other.name)))
+        }
     }
 
     impl VisitMut for LoopVisitor<'_> {
@@ -173,8 +178,18 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
                 // Other loop bounds
-                Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
-                    if self.label.is_none() {
+                Expr::ForLoop(ExprForLoop { label, expr, body, .. }) => {
+                    // The iterator is evaluated outside of the `for` loop.
+                    self.visit_expr_mut(expr);
+                    if self.label.is_some() && !self.is_shadowed_by(label.as_ref()) {
+                        self.nested = true;
+                        self.visit_block_mut(body);
+                        self.nested = tmp;
+                    }
+                    return;
+                }
+                Expr::Loop(ExprLoop { label, .. }) | Expr::While(ExprWhile { label, .. }) => {
+                    if self.label.is_none() || self.is_shadowed_by(label.as_ref()) {
                         return;
                     }
                     self.nested = true;
@@ -185,6 +200,10 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                         self.cx.replace_boxed_expr(expr);
                     }
                 }
+                // A block with the same label (unlabeled `break`s are not allowed in it)
+                Expr::Block(ExprBlock { label, .. }) if self.is_shadowed_by(label.as_ref()) => {
+                    return;
+                }
                 _ => {}
             }
 
-- 
2.43.0


From 0174b634e2eac413f37e965e7de485e2ef14fadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:10 +0000
Subject: [PATCH 06/13] fix: convert marker macros written with braces in
 statement position

---
 src/auto_enum/visitor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index d09c836..2f736e2 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -1,10 +1,12 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, Token, parse_quote, token,
+    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -244,6 +246,14 @@ impl VisitMut for Visitor<'_> {
 
     fn visit_stmt_mut(&mut self, node: &mut Stmt) {
         if !self.cx.has_error() {
+            // `marker! { <expr> }` in statement position is parsed as a macro statement.
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token }) = node {
+                if self.cx.is_marker_macro_exact(mac) {
+                    let expr = ExprMacro { attrs: mem::take(attrs), mac: mac.clone() };
+                    *node = Stmt::Expr(Expr::Macro(expr), *semi_token);
+                }
+            }
+
             if let Stmt::Expr(expr, semi) = node {
                 self.visit_expr(expr, semi.is_some());
             } else {
-- 
2.43.0


From 112ce77defc6f55acede8c7b4cd5ed9e7ccfaba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:16 +0000
Subject: [PATCH 07/13] fix: accept the alias error::Error that type_analysis
 collects

---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 src/lib.rs              | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index df0b8df..8ac6ef4 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
diff --git a/src/lib.rs b/src/lib.rs
index d8c21bb..993a9e5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -662,7 +662,7 @@ Note that some traits have aliases.
 
 ### `std::error` *(requires `"std"` crate feature)*
 
-- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
+- [`Error`](https://doc.rust-lang.org/std/error/trait.Error.html) (alias: `error::Error`) - [example](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.rs) | [generated code](https://github.com/taiki-e/auto_enums/blob/HEAD/tests/expand/std/error.expanded.rs)
 
 ## External libraries
 
-- 
2.43.0


From e2a1ba0b7683eafac96f9f0a723d3023f980c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 08/13] fix: convert markers in a function whose only results
 are markers (type_analysis)

---
 src/auto_enum/mod.rs     | 12 ++++++++++--
 src/auto_enum/visitor.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..4d05534 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -76,7 +76,11 @@ fn expand_expr(cx: &mut Context, expr: &mut Expr) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_marker(cx, expr)
+            {
                 cx.dummy(expr);
                 return;
             }
@@ -215,7 +219,11 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            if cx.args.is_empty()
+                && cx.variant_is_empty()
+                && count < 2
+                && !visitor::find_marker(cx, item)
+            {
                 cx.dummy(item);
                 return;
             }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 2f736e2..43afa4b 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -4,6 +4,8 @@ use std::mem;
 
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
+#[cfg(feature = "type_analysis")]
+use syn::Macro;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
     MetaList, Stmt, StmtMacro, Token, parse_quote, token,
@@ -435,6 +437,44 @@ pub(super) fn find_nested(node: &mut impl Node) -> bool {
     visitor.has
 }
 
+// -----------------------------------------------------------------------------
+// FindMarker
+
+/// Find expression level marker (`marker!` macro) of the current scope.
+#[cfg(feature = "type_analysis")]
+pub(super) fn find_marker(cx: &Context, node: &mut impl Node) -> bool {
+    struct FindMarker<'a> {
+        cx: &'a Context,
+        has: bool,
+    }
+
+    impl VisitMut for FindMarker<'_> {
+        fn visit_expr_mut(&mut self, node: &mut Expr) {
+            if self.cx.current_marker != DEFAULT_MARKER || !node.any_attr(NAME) {
+                visit_mut::visit_expr_mut(self, node);
+            }
+        }
+
+        fn visit_stmt_mut(&mut self, node: &mut Stmt) {
+            if self.cx.current_marker != DEFAULT_MARKER || !node.any_attr(NAME) {
+                visit_mut::visit_stmt_mut(self, node);
+            }
+        }
+
+        fn visit_macro_mut(&mut self, node: &mut Macro) {
+            self.has |= self.cx.is_marker_macro_exact(node);
+        }
+
+        fn visit_item_mut(&mut self, _: &mut Item) {
+            // Do not recurse into nested items.
+        }
+    }
+
+    let mut visitor = FindMarker { cx, has: false };
+    node.visited(&mut visitor);
+    visitor.has
+}
+
 // -----------------------------------------------------------------------------
 // FnVisitor
 
-- 
2.43.0


From 4275b66c62373a8bbc4596789937a0716c3b1d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:45 +0000
Subject: [PATCH 09/13] fix: leave generic parameter defaults out of the impls
 of enum_derive

---
 src/enum_derive.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 8ac6ef4..6ba13c7 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -263,7 +263,23 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
 }
 
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
-    let data = syn::parse2::<Data>(input)?;
+    let mut item: ItemEnum = syn::parse2::<Data>(input)?.into();
+    // Defaults for type and const parameters are allowed in the enum, but not in its impls.
+    let generics = item.generics.clone();
+    for param in &mut item.generics.params {
+        match param {
+            GenericParam::Lifetime(_) => {}
+            GenericParam::Type(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+            GenericParam::Const(param) => {
+                param.eq_token = None;
+                param.default = None;
+            }
+        }
+    }
+    let data = syn::parse2::<Data>(item.into_token_stream())?;
     let args = syn::parse2::<Args>(args)?.inner;
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
@@ -339,6 +355,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         data.into()
     };
 
+    item.generics = generics;
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
     }
-- 
2.43.0


From ca9c310e2f99456e259b7de9e9dcffeb3a3be153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:25 +0000
Subject: [PATCH 10/13] fix: report an error for #[auto_enum] with arguments on
 a macro statement instead of emitting it unexpanded

---
 src/auto_enum/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 4d05534..8ec2f84 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -107,7 +107,12 @@ fn expand_parent_stmt(cx: &mut Context, stmt: &mut Stmt) {
         Stmt::Item(item) => {
             cx.error(format_err!(item, "may only be used on expression, statement, or function"));
         }
-        Stmt::Macro(_) => {}
+        // A macro statement has no results.
+        Stmt::Macro(_) => {
+            if !cx.is_dummy() {
+                cx.build(|_| unreachable!());
+            }
+        }
     }
 }
 
-- 
2.43.0


From a597c56f2bc93e24a66af61969f7998a9a85f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:31 +0000
Subject: [PATCH 11/13] fix: find results in and divergence of expressions
 passed through `$expr:expr` of a macro_rules! macro

---
 src/auto_enum/context.rs | 2 ++
 src/auto_enum/expr.rs    | 8 +++++---
 src/auto_enum/mod.rs     | 6 +++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..6fe8dc6 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -189,6 +189,8 @@ impl Context {
     pub(super) fn is_marker_expr(&self, expr: &Expr) -> bool {
         match expr {
             Expr::Macro(expr) => self.is_marker_macro(&expr.mac),
+            // An expression passed through `$expr:expr` of a `macro_rules!` macro.
+            Expr::Group(expr) => self.is_marker_expr(&expr.expr),
             _ => false,
         }
     }
diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3d363ec..a096c81 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
-    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
-    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprGroup, ExprIf, ExprLoop,
+    ExprMacro, ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile,
+    Item, Label, Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -31,6 +31,7 @@ pub(super) fn child_expr(cx: &mut Context, expr: &mut Expr) {
 
         // Search recursively
         Expr::MethodCall(ExprMethodCall { receiver: expr, .. })
+        | Expr::Group(ExprGroup { expr, .. })
         | Expr::Paren(ExprParen { expr, .. }) => child_expr(cx, expr),
 
         _ => {}
@@ -71,6 +72,7 @@ pub(super) fn is_unreachable(cx: &Context, expr: &Expr) -> bool {
 
         // Search recursively
         Expr::MethodCall(ExprMethodCall { receiver: expr, .. })
+        | Expr::Group(ExprGroup { expr, .. })
         | Expr::Paren(ExprParen { expr, .. }) => is_unreachable(cx, expr),
 
         _ => false,
diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 8ec2f84..4bf68d4 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -11,7 +11,7 @@ use quote::ToTokens as _;
 #[cfg(feature = "type_analysis")]
 use syn::Pat;
 use syn::{
-    AngleBracketedGenericArguments, Error, Expr, ExprClosure, GenericArgument, Item, ItemEnum,
+    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprGroup, GenericArgument, Item, ItemEnum,
     ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, Type, TypePath,
 };
 
@@ -59,6 +59,10 @@ pub(crate) fn attribute(args: TokenStream, input: TokenStream) -> TokenStream {
 
 fn expand_expr(cx: &mut Context, expr: &mut Expr) {
     let expr = match expr {
+        // An expression passed through `$expr:expr` of a `macro_rules!` macro.
+        Expr::Group(ExprGroup { attrs, expr, .. }) if attrs.is_empty() => {
+            return expand_expr(cx, expr);
+        }
         Expr::Closure(ExprClosure { body, .. }) if cx.visit_last() => {
             let count = visitor::visit_fn(cx, &mut **body);
             if count.try_ >= 2 {
-- 
2.43.0


From 8d63fae4e47bc80a296fa737cb0f747fd8b0217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:10 +0000
Subject: [PATCH 12/13] fix: convert return and ? also where the return type is
 parenthesized or passed through `$ty:ty` of a macro_rules! macro

---
 src/auto_enum/mod.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index 4bf68d4..3dd5eb6 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -11,8 +11,9 @@ use quote::ToTokens as _;
 #[cfg(feature = "type_analysis")]
 use syn::Pat;
 use syn::{
-    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprGroup, GenericArgument, Item, ItemEnum,
-    ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, Type, TypePath,
+    AngleBracketedGenericArguments, Error, Expr, ExprClosure, ExprGroup, GenericArgument, Item,
+    ItemEnum, ItemFn, Local, LocalInit, PathArguments, ReturnType, Stmt, Type, TypeGroup,
+    TypeParen, TypePath,
 };
 
 use self::{
@@ -165,10 +166,19 @@ fn expand_parent_local(cx: &mut Context, local: &mut Local) {
     cx.build(|item| build_expr(expr, item));
 }
 
+/// Removes parentheses and the invisible groups around types passed through `$ty:ty` of a
+/// `macro_rules!` macro.
+fn ungroup(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(TypeGroup { elem, .. }) | Type::Paren(TypeParen { elem, .. }) => ungroup(elem),
+        _ => ty,
+    }
+}
+
 fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     let ItemFn { sig, block, .. } = item;
     if let ReturnType::Type(_, ty) = &mut sig.output {
-        match &**ty {
+        match ungroup(ty) {
             // `return`
             Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {
                 let count = visitor::visit_fn(cx, &mut **block);
@@ -189,14 +199,14 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
                     }) if args.len() == 2
                         && path_eq(path, &["std", "core"], &["result", "Result"]) =>
                     {
-                        if let (
-                            GenericArgument::Type(_),
-                            GenericArgument::Type(Type::ImplTrait(_)),
-                        ) = (&args[0], &args[1])
+                        if let (GenericArgument::Type(_), GenericArgument::Type(err)) =
+                            (&args[0], &args[1])
                         {
-                            let count = visitor::visit_fn(cx, &mut **block);
-                            if count.try_ >= 2 {
-                                cx.visit_mode = VisitMode::Try;
+                            if let Type::ImplTrait(_) = ungroup(err) {
+                                let count = visitor::visit_fn(cx, &mut **block);
+                                if count.try_ >= 2 {
+                                    cx.visit_mode = VisitMode::Try;
+                                }
                             }
                         }
                     }
-- 
2.43.0


From afd66492b5aa1b50e7cb6e3fdf6052a6f0e2f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 13/13] fix: derive Coroutine for an enum with a type parameter
 named R

---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0

