From 7f3851d497cfb873de5fd25ec5808e950a06cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 01/25] fix: instrument constructors, private methods and class
 methods with a non-identifier key

---
 .../macros/create_instrumentation_visitor.rs  |  2 +
 .../src/macros/instrumentation_visitor.rs     | 66 ++++++++++++++++++-
 .../swc-coverage-instrument/src/utils/node.rs |  2 +
 3 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..0be2a77 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -170,6 +170,8 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(PrivateMethod);
+         on_enter!(Constructor);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..9ac2728 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -373,7 +373,6 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-                    // TODO: this does not cover all of PropName enum yet
                     // TODO: duplicated logic between fn_expr
                     if let PropName::Ident(ident) = &class_method.key {
                         let should_ignore_via_options = self
@@ -389,6 +388,71 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        self.create_fn_instrumentation(&None, &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    self.create_fn_instrumentation(&None, &mut private_method.function);
+                    private_method.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
+        // ClassMethod (kind: constructor): entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let should_ignore_via_options = self
+                        .instrument_options
+                        .ignore_class_methods
+                        .iter()
+                        .any(|v| v == "constructor");
+
+                    if !should_ignore_via_options {
+                        if let Some(body) = &mut constructor.body {
+                            let range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &constructor.key.span(),
+                            );
+                            let body_range = crate::lookup_range::get_range_from_span(
+                                &self.source_map,
+                                &body.span,
+                            );
+                            let index = self.cov.borrow_mut().new_function(
+                                &Some("constructor".to_string()),
+                                &range,
+                                &body_range,
+                            );
+                            let b = crate::create_increase_counter_expr(
+                                &crate::constants::idents::IDENT_F,
+                                index,
+                                &self.cov_fn_ident,
+                                None,
+                            );
+                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
+                                span: swc_core::common::DUMMY_SP,
+                                expr: Box::new(b),
+                            })];
+                            prepended_vec.extend(body.stmts.take());
+                            body.stmts = prepended_vec;
+                        }
+                        constructor.visit_mut_children_with(self);
                     }
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..c1c5a40 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,8 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    PrivateMethod,
+    Constructor,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
-- 
2.43.0


From 4ca503ce9736acd97c99852afcc2eda72bd5a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 02/25] fix: treat only directly nested operands as parts of a
 logical expression and instrument what they contain

---
 .../macros/instrumentation_counter_helper.rs  | 93 +++++++++----------
 .../src/macros/instrumentation_visitor.rs     |  1 +
 .../src/visitors/finders.rs                   | 33 +++----
 .../src/visitors/logical_expr_visitor.rs      | 65 -------------
 .../src/visitors/mod.rs                       |  1 -
 5 files changed, 61 insertions(+), 132 deletions(-)
 delete mode 100644 packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..3966bdf 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -70,58 +70,55 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                 return;
             }
 
-            // Logical expression can have inner logical expression as non-direct child
-            // (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`, logical || expr is child of ParenExpr.
-            // Try to look up if current expr is the `leaf` of whole logical expr tree.
-            let mut has_inner_logical_expr = crate::visitors::finders::LogicalExprLeafFinder(false);
-            expr.visit_with(&mut has_inner_logical_expr);
-
-            // If current expr have inner logical expr, traverse until reaches to the leaf
-            if has_inner_logical_expr.0 {
-                let mut visitor = crate::visitors::logical_expr_visitor::LogicalExprVisitor::new(
-                    self.source_map.clone(),
-                    self.comments.clone(),
-                    self.cov.clone(),
-                    self.instrument_options.clone(),
-                    self.nodes.clone(),
-                    should_ignore,
+            // Logical expression can have inner logical expression, either directly or in parens
+            // (i.e `args[0] > 0 && (args[0] < 5 || args[0] > 10)`). Those share the branch of the
+            // outermost one, so look for the `leaf` of whole logical expr tree.
+            match expr {
+                Expr::Paren(ParenExpr { expr: inner, .. })
+                    if crate::visitors::finders::is_logical_expr(inner) =>
+                {
+                    self.wrap_bin_expr_with_branch_counter(branch, inner);
+                    return;
+                }
+                Expr::Bin(bin_expr) if crate::visitors::finders::is_logical_op(bin_expr.op) => {
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut bin_expr.left);
+                    self.wrap_bin_expr_with_branch_counter(branch, &mut bin_expr.right);
+                    return;
+                }
+                _ => {}
+            }
+
+            // Now we believe this expr is the leaf of the logical expr tree. Instrument what it
+            // contains, then wrap it with branch counter.
+            expr.visit_mut_children_with(self);
+            if self.instrument_options.report_logic {
+                let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
+                let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
+
+                let increase_expr = crate::create_increase_counter_expr(
+                    &crate::constants::idents::IDENT_B,
                     branch,
+                    &self.cov_fn_ident,
+                    Some(branch_path_index),
+                );
+                let increase_true_expr = crate::create_increase_true_expr(
+                    branch,
+                    branch_path_index,
+                    &self.cov_fn_ident,
+                    &self.cov_fn_temp_ident,
+                    expr.take(),
                 );
 
-                expr.visit_mut_children_with(&mut visitor);
-            } else {
-                // Now we believe this expr is the leaf of the logical expr tree.
-                // Wrap it with branch counter.
-                if self.instrument_options.report_logic {
-                    let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
-                    let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
-
-                    let increase_expr = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_B,
-                        branch,
-                        &self.cov_fn_ident,
-                        Some(branch_path_index),
-                    );
-                    let increase_true_expr = crate::create_increase_true_expr(
-                        branch,
-                        branch_path_index,
-                        &self.cov_fn_ident,
-                        &self.cov_fn_temp_ident,
-                        expr.take(),
-                    );
-
-                    // TODO: duplicated code with replace_expr_with_counter
-                    let paren_expr = Expr::Seq(SeqExpr {
-                        span: swc_core::common::DUMMY_SP,
-                        exprs: vec![Box::new(increase_expr), Box::new(increase_true_expr)],
-                    });
+                // TODO: duplicated code with replace_expr_with_counter
+                let paren_expr = Expr::Seq(SeqExpr {
+                    span: swc_core::common::DUMMY_SP,
+                    exprs: vec![Box::new(increase_expr), Box::new(increase_true_expr)],
+                });
 
-                    // replace init with increase expr + init seq
-                    *expr = paren_expr;
-                } else {
-                    expr.visit_mut_children_with(self);
-                    self.replace_expr_with_branch_counter(expr, branch);
-                }
+                // replace init with increase expr + init seq
+                *expr = paren_expr;
+            } else {
+                self.replace_expr_with_branch_counter(expr, branch);
             }
         }
     };
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 9ac2728..684edbb 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -933,6 +933,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..7ca5dde 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -1,6 +1,6 @@
 use swc_core::ecma::{
     ast::*,
-    visit::{Visit, VisitWith},
+    visit::Visit,
 };
 
 /// A visitor to check if counter need to be `hoisted` for certain types of nodes.
@@ -74,22 +74,19 @@ impl Visit for ExprFinder {
     }
 }
 
-/// Traverse down given nodes to check if it's leaf of the logical expr,
-/// or have inner logical expr to recurse.
-#[derive(Debug)]
-pub struct LogicalExprLeafFinder(pub bool);
-
-impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
-                // short curcuit, we know it's not leaf
-                return;
-            }
-            _ => {}
-        }
-
-        bin_expr.visit_children_with(self);
+/// Determine if given operator makes a logical expression.
+pub fn is_logical_op(op: BinaryOp) -> bool {
+    matches!(
+        op,
+        BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing
+    )
+}
+
+/// Determine if given expr is a logical expression, regardless of the parens around it.
+pub fn is_logical_expr(expr: &Expr) -> bool {
+    match expr {
+        Expr::Paren(paren) => is_logical_expr(&paren.expr),
+        Expr::Bin(bin) => is_logical_op(bin.op),
+        _ => false,
     }
 }
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
deleted file mode 100644
index 53fea27..0000000
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ /dev/null
@@ -1,65 +0,0 @@
-use swc_core::{
-    common::{comments::Comments, util::take::Take, SourceMapper},
-    ecma::visit::{VisitMut, VisitMutWith, VisitWith},
-};
-use tracing::instrument;
-
-use crate::{create_instrumentation_visitor, instrumentation_branch_wrap_counter_helper};
-
-create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
-
-/// A visitor to traverse down given logical expr's value (left / right) with existing branch idx.
-/// This is required to preserve branch id to recursively traverse logical expr's inner child.
-impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
-    instrumentation_branch_wrap_counter_helper!();
-}
-
-impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-    fn visit_mut_expr(&mut self, expr: &mut Expr) {
-        let (old, _ignore_current) = self.on_enter(expr);
-        expr.visit_mut_children_with(self);
-        self.on_exit(old);
-    }
-
-    // TODO: common logic between coveragevisitor::visit_mut_bin_expr
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_bin_expr(&mut self, bin_expr: &mut BinExpr) {
-        // We don't use self.on_enter() here since Node::LogicalExpr is a dialect of BinExpr
-        // which we can't pass directly via on_enter() macro
-        let old = self.should_ignore;
-        let ignore_current = match old {
-            Some(crate::hint_comments::IgnoreScope::Next) => old,
-            _ => {
-                self.should_ignore =
-                    crate::hint_comments::should_ignore(&self.comments, Some(&bin_expr.span));
-                self.should_ignore
-            }
-        };
-
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {
-                self.nodes.push(crate::Node::BinExpr);
-                bin_expr.visit_mut_children_with(self);
-                self.on_exit(old);
-            }
-            _ => {
-                match &bin_expr.op {
-                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                        self.nodes.push(crate::Node::LogicalExpr);
-
-                        // Iterate over each expr, wrap it with branch counter.
-                        // This does not create new branch counter - should use parent's index instead.
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
-                    }
-                    _ => {
-                        // iterate as normal for non loigical expr
-                        self.nodes.push(crate::Node::BinExpr);
-                        bin_expr.visit_mut_children_with(self);
-                        self.on_exit(old);
-                    }
-                }
-            }
-        }
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/mod.rs b/packages/swc-coverage-instrument/src/visitors/mod.rs
index 60c3257..601504a 100644
--- a/packages/swc-coverage-instrument/src/visitors/mod.rs
+++ b/packages/swc-coverage-instrument/src/visitors/mod.rs
@@ -1,5 +1,4 @@
 pub mod coverage_visitor;
 pub mod finders;
-pub mod logical_expr_visitor;
 pub mod stmt_like_visitor;
 pub mod switch_case_visitor;
-- 
2.43.0


From 99cd74540e70b1c94242f4ef7504a52d56449ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 03/25] fix: give a default value one branch path and
 instrument the pattern it belongs to

---
 .../src/macros/instrumentation_visitor.rs            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 684edbb..0f8e29b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -963,7 +963,17 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    let hint = crate::hint_comments::should_ignore(
+                        &self.comments,
+                        Some(&assign_pat.right.span()),
+                    );
+                    assign_pat.left.visit_mut_with(self);
+                    if hint != Some(crate::hint_comments::IgnoreScope::Next) {
+                        // default value is a single branch path, even if it's a logical expr:
+                        // inner logical expr have its own branch.
+                        assign_pat.right.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *assign_pat.right, branch);
+                    }
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From d24c411736c6007ea26d43cfad5042397e0a5382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 04/25] fix: cover default values of shorthand destructuring
 properties

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 32 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 34 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 0be2a77..63d718d 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -190,6 +190,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0f8e29b..f721ca9 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -979,6 +979,38 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // AssignmentPattern in shorthand property (`{ a = 1 }`): entries(coverAssignmentPattern),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    if let Some(value) = &mut assign_pat_prop.value {
+                        let range = crate::lookup_range::get_range_from_span(
+                            &self.source_map,
+                            &assign_pat_prop.span,
+                        );
+                        let branch = self.cov.borrow_mut().new_branch(
+                            crate::BranchType::DefaultArg,
+                            &range,
+                            false,
+                        );
+
+                        let hint = crate::hint_comments::should_ignore(
+                            &self.comments,
+                            Some(&value.span()),
+                        );
+                        if hint != Some(crate::hint_comments::IgnoreScope::Next) {
+                            value.visit_mut_with(self);
+                            self.replace_expr_with_branch_counter(&mut *value, branch);
+                        }
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
         // TryStatement: entries(coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_try_stmt(&mut self, try_stmt: &mut TryStmt) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index c1c5a40..2445a9f 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -46,6 +46,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From 5529598c5f312601400714aadbc207e28cf757e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 05/25] fix: keep directive prologues of programs and functions
 in front of the injected code

---
 .../macros/instrumentation_counter_helper.rs  | 20 ++++---
 .../instrumentation_stmt_counter_helper.rs    | 10 ++++
 .../src/macros/instrumentation_visitor.rs     | 53 +++----------------
 .../swc-coverage-instrument/src/macros/mod.rs |  7 +++
 .../src/visitors/coverage_visitor.rs          | 26 ++++-----
 5 files changed, 48 insertions(+), 68 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 3966bdf..790e020 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -160,6 +160,19 @@ macro_rules! instrumentation_counter_helper {
             }));
         }
 
+        /// Insert fn counter to the body of the function. Directives (i.e `use strict`) should
+        /// stay at the top of the body, otherwise those are not directives anymore.
+        fn insert_fn_counter(&self, stmts: &mut Vec<Stmt>, counter: Expr) {
+            let index = crate::macros::count_directives(stmts.iter());
+            stmts.insert(
+                index,
+                Stmt::Expr(ExprStmt {
+                    span: swc_core::common::DUMMY_SP,
+                    expr: Box::new(counter),
+                }),
+            );
+        }
+
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
@@ -191,12 +204,7 @@ macro_rules! instrumentation_counter_helper {
                         &self.cov_fn_ident,
                         None,
                     );
-                    let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                        span: swc_core::common::DUMMY_SP,
-                        expr: Box::new(b),
-                    })];
-                    prepended_vec.extend(blockstmt.stmts.take());
-                    blockstmt.stmts = prepended_vec;
+                    self.insert_fn_counter(&mut blockstmt.stmts, b);
                 }
                 _ => {
                     unimplemented!("Unable to process function body node type")
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..a323428 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -7,6 +7,16 @@ macro_rules! instrumentation_stmt_counter_helper {
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
             let mut new_stmts = vec![];
 
+            // Do not create coverage instrumentation for directives. Leading strings are directives
+            // only if those belong to the function body, which has its counter already.
+            let directives = crate::macros::count_directives(stmts.iter());
+            match stmts.get(directives) {
+                Some(stmt) if self.is_injected_counter_stmt(stmt) => {
+                    new_stmts.extend(stmts.drain(..directives));
+                }
+                _ => {}
+            }
+
             for mut stmt in stmts.drain(..) {
                 if !self.is_injected_counter_stmt(&stmt) {
                     let (old, ignore_current) = self.on_enter(&mut stmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f721ca9..6b168ab 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -62,14 +60,9 @@ macro_rules! instrumentation_visitor {
                         );
 
                         // insert fn counter expression
-                        let mut new_stmts = vec![Stmt::Expr(ExprStmt {
-                            span: swc_core::common::DUMMY_SP,
-                            expr: Box::new(b),
-                        })];
+                        self.insert_fn_counter(&mut block_stmt.stmts, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         self.insert_stmts_counter(&mut block_stmt.stmts);
-                        new_stmts.extend(block_stmt.stmts.drain(..));
-                        block_stmt.stmts = new_stmts;
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -182,15 +175,6 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
-            }
-
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
@@ -445,12 +429,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         constructor.visit_mut_children_with(self);
                     }
@@ -534,12 +513,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             getter_prop.visit_mut_children_with(self);
                         }
@@ -566,12 +540,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         getter_prop.visit_mut_children_with(self);
                     }
@@ -620,12 +589,7 @@ macro_rules! instrumentation_visitor {
                                     &self.cov_fn_ident,
                                     None,
                                 );
-                                let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                    span: swc_core::common::DUMMY_SP,
-                                    expr: Box::new(b),
-                                })];
-                                prepended_vec.extend(body.stmts.take());
-                                body.stmts = prepended_vec;
+                                self.insert_fn_counter(&mut body.stmts, b);
                             }
                             setter_prop.visit_mut_children_with(self);
                         }
@@ -652,12 +616,7 @@ macro_rules! instrumentation_visitor {
                                 &self.cov_fn_ident,
                                 None,
                             );
-                            let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
-                                span: swc_core::common::DUMMY_SP,
-                                expr: Box::new(b),
-                            })];
-                            prepended_vec.extend(body.stmts.take());
-                            body.stmts = prepended_vec;
+                            self.insert_fn_counter(&mut body.stmts, b);
                         }
                         setter_prop.visit_mut_children_with(self);
                     }
diff --git a/packages/swc-coverage-instrument/src/macros/mod.rs b/packages/swc-coverage-instrument/src/macros/mod.rs
index b327e4c..78e1548 100644
--- a/packages/swc-coverage-instrument/src/macros/mod.rs
+++ b/packages/swc-coverage-instrument/src/macros/mod.rs
@@ -3,3 +3,10 @@ pub(crate) mod instrumentation_counter_helper;
 pub(crate) mod instrumentation_stmt_counter_helper;
 pub(crate) mod instrumentation_visitor;
 pub(crate) mod visit_mut_for_like;
+
+/// Count directives (i.e `use strict`) at the top of given items.
+pub(crate) fn count_directives<'a, T: swc_core::ecma::utils::IsDirective + 'a>(
+    items: impl Iterator<Item = &'a T>,
+) -> usize {
+    items.take_while(|item| item.directive_continue()).count()
+}
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..d32ad7b 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -2,7 +2,6 @@ use swc_core::{
     common::{comments::Comments, util::take::Take, SourceMapper, DUMMY_SP},
     ecma::{
         ast::*,
-        utils::IsDirective,
         visit::{noop_visit_mut_type, VisitMut, VisitMutWith, VisitWith},
     },
 };
@@ -146,16 +145,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
 
         // TODO: Should module_items need to be added in self.nodes?
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = crate::macros::count_directives(items.iter());
+        let mut new_items: Vec<ModuleItem> = items.drain(..directives).collect();
         for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
-            }
-
             let (old, _ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
@@ -186,8 +179,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            let index = directives.max(1);
+            items.insert(index, ModuleItem::Stmt(coverage_template));
+            items.insert(index + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -204,7 +198,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
-        let mut new_items = vec![];
+        // Do not create coverage instrumentation for directives.
+        let directives = crate::macros::count_directives(items.body.iter());
+        let mut new_items: Vec<Stmt> = items.body.drain(..directives).collect();
         for mut item in items.body.drain(..) {
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
@@ -215,8 +211,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        items.body.insert(directives, coverage_template);
+        items.body.insert(directives + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From 268857bb11b8f3cf0797534eb46f46c3331dbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 06/25] fix: merge file coverage having a branch without
 locations

---
 packages/istanbul-oxide/src/file_coverage.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..2f76b68 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -16,6 +16,15 @@ fn key_from_loc(range: &Range) -> String {
     )
 }
 
+/// Branch can have no locations, i.e `switch` without any `case`.
+fn key_from_branch(branch: &Branch) -> String {
+    match (branch.locations.get(0), &branch.loc) {
+        (Some(range), _) => key_from_loc(range),
+        (None, Some(loc)) => format!("{}|", key_from_loc(loc)),
+        (None, None) => Default::default(),
+    }
+}
+
 fn merge_properties_hits_vec(
     first_hits: &BranchHitMap,
     first_map: &BranchMap,
@@ -293,7 +302,7 @@ impl FileCoverage {
             &self.branch_map,
             &coverage.b,
             &coverage.branch_map,
-            |branch: &Branch| key_from_loc(&branch.locations[0]),
+            key_from_branch,
         );
         self.b = branches_hits_merged;
         self.branch_map = branches_map_merged;
@@ -307,7 +316,7 @@ impl FileCoverage {
                     &self.branch_map,
                     coverage_branches_true,
                     &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
+                    key_from_branch,
                 );
 
                 self.b_t = Some(branches_true_hits_merged);
-- 
2.43.0


From b3267faed9b20be2e6faa0a9331e9d2a9a6aaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 07/25] fix: keep branch truthiness aligned with the merged
 branch map

---
 packages/istanbul-oxide/src/file_coverage.rs | 35 +++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 2f76b68..a6c790a 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -305,21 +305,38 @@ impl FileCoverage {
             key_from_branch,
         );
         self.b = branches_hits_merged;
-        self.branch_map = branches_map_merged;
+        let branch_map = std::mem::replace(&mut self.branch_map, branches_map_merged);
 
         // Tracking additional information about branch truthiness
         // can be optionally enabled:
         if let Some(branches_true) = &self.b_t {
             if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    key_from_branch,
+                let (branches_true_hits_merged, branches_true_map_merged) =
+                    merge_properties_hits_vec(
+                        branches_true,
+                        &branch_map,
+                        coverage_branches_true,
+                        &coverage.branch_map,
+                        key_from_branch,
+                    );
+
+                // Truthiness is tracked for some of the branches only, keep the ids in sync with
+                // the merged branch map.
+                let ids: IndexMap<String, u32> = self
+                    .branch_map
+                    .iter()
+                    .map(|(id, branch)| (key_from_branch(branch), *id))
+                    .collect();
+
+                self.b_t = Some(
+                    branches_true_hits_merged
+                        .into_iter()
+                        .map(|(idx, hits)| {
+                            let key = key_from_branch(&branches_true_map_merged[&idx]);
+                            (ids.get(&key).copied().unwrap_or(idx), hits)
+                        })
+                        .collect(),
                 );
-
-                self.b_t = Some(branches_true_hits_merged);
             }
         }
     }
-- 
2.43.0


From 00a0a041dc012e4f6b21ef8db2b0505b41e298a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 08/25] fix: count variable initialisers holding a function
 wherever they are declared

---
 .../macros/instrumentation_counter_helper.rs  | 33 +++++--------------
 1 file changed, 8 insertions(+), 25 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 790e020..7c3a1a6 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -279,32 +279,15 @@ macro_rules! instrumentation_counter_helper {
             let parent = self.nodes.last().unwrap().clone();
             if hoist.0 && parent == crate::Node::VarDeclarator {
                 // TODO: need to polish logic to determine prepending instead of traversing parent node types
-                let nodes_len = self.nodes.len();
-                let parent_index = if nodes_len >= (3 as usize) {
-                    nodes_len - 3
-                } else {
-                    0
-                };
-                let parent = self.nodes.get(parent_index);
-
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                            _ => {}
-                        }
+                let parent = self.nodes.iter().rev().nth(3);
+                match parent {
+                    // Exported declaration have its own counter.
+                    Some(crate::Node::ModuleDecl) => {}
+                    // Declarator always belongs to the declaration statement (or the head of
+                    // the loop), which is the place to prepend counter.
+                    _ => {
+                        self.mark_prepend_stmt_counter(&span);
                     }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
                 }
 
                 return;
-- 
2.43.0


From 719779cc22fc4c2bf255a2eeb1f5d6538315988f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 09/25] fix: instrument the parameters of arrow functions

---
 .../src/macros/instrumentation_visitor.rs                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 6b168ab..40f1bce 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -59,6 +59,8 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        arrow_expr.params.visit_mut_with(self);
+
                         // insert fn counter expression
                         self.insert_fn_counter(&mut block_stmt.stmts, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
@@ -84,6 +86,8 @@ macro_rules! instrumentation_visitor {
                             None,
                         );
 
+                        arrow_expr.params.visit_mut_with(self);
+
                         // insert fn counter expression
                         let mut stmts = vec![Stmt::Expr(ExprStmt {
                             span: swc_core::common::DUMMY_SP,
-- 
2.43.0


From 52a3a38eedcba750abd523e6f3407e8d7693d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 10/25] fix: count class property initialisers for each
 evaluation

---
 .../src/macros/instrumentation_counter_helper.rs           | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 7c3a1a6..41ebbf4 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -241,6 +241,13 @@ macro_rules! instrumentation_counter_helper {
         }
 
         fn cover_statement(&mut self, expr: &mut Expr) {
+            // Value of the class property is evaluated for each instance, there is no statement
+            // in front of it to prepend the counter.
+            if self.nodes.last() != Some(&crate::Node::VarDeclarator) {
+                self.replace_expr_with_stmt_counter(expr);
+                return;
+            }
+
             // Special handling for tagged template expressions (like emotion styled components)
             // to preserve the template relationship and avoid wrapping in sequence expressions
             if let Expr::TaggedTpl(_) = expr {
-- 
2.43.0


From 7372281f5256bda76aa7e985689fb6ca2ac5b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 11/25] fix: count a tagged template once, as part of its
 statement

---
 .../src/macros/instrumentation_counter_helper.rs      |  3 +--
 .../src/macros/instrumentation_visitor.rs             | 11 +++--------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 41ebbf4..fb5fafe 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -254,9 +254,8 @@ macro_rules! instrumentation_counter_helper {
                 // For tagged templates, prepend statement counter instead of wrapping
                 // This preserves the template relationship
                 let span = expr.span();
+                // Caller visits children to instrument any inner expressions.
                 self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
                 return;
             }
 
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 40f1bce..1c56c29 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -263,14 +263,9 @@ macro_rules! instrumentation_visitor {
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
-                    // For tagged template expressions like styled(...)`template`,
-                    // we need to instrument the entire expression rather than wrapping
-                    // the tag part in a sequence expression, which would break the
-                    // template relationship and cause emotion to lose label information.
-
-                    // Instead of calling cover_statement on the tag (which would wrap it),
-                    // we mark to prepend a statement counter before the entire tagged template
-                    self.mark_prepend_stmt_counter(&tagged_tpl.span);
+                    // Wrapping the tag part like styled(...)`template` in a sequence expression would
+                    // break the template relationship and cause emotion to lose label information.
+                    // It is not a statement, the statement it belongs to has its own counter.
 
                     // Visit children normally to instrument any inner expressions
                     tagged_tpl.visit_mut_children_with(self);
-- 
2.43.0


From 5bda946279ef26fbd2cfc0766c70a8fce3831987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 12/25] fix: name the coverage function after the file being
 instrumented

---
 .../create_coverage_fn_decl.rs                | 23 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 ++++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 13 insertions(+), 20 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..53c4485 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,23 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create a unique ident for the injected coverage counter fn, and for the temporal variable
+/// being used for b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// A process can instrument multiple files, idents should not be shared across those.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 63d718d..93daa12 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                // create ident for the injected coverage instrumentation counters.
+                let (cov_fn_ident, cov_fn_temp_ident) = crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident,
+                    cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index d32ad7b..84f21d0 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -22,9 +22,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From c6aea98a3211356a8697a2197c71acbb04ce5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 13/25] fix: skip functions without body

---
 .../macros/instrumentation_counter_helper.rs  | 33 +++++++------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index fb5fafe..f87e4c2 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -182,34 +182,25 @@ macro_rules! instrumentation_counter_helper {
                 (&function.span, None)
             };
 
-            let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
-            let body_span = if let Some(body) = &function.body {
-                body.span
-            } else {
-                // TODO: probably this should never occur
-                function.span
+            // There is nothing to count without body (i.e TypeScript's overload, abstract method)
+            let Some(body) = &mut function.body else {
+                return;
             };
 
-            let body_range = crate::lookup_range::get_range_from_span(&self.source_map, &body_span);
+            let range = crate::lookup_range::get_range_from_span(&self.source_map, span);
+            let body_range = crate::lookup_range::get_range_from_span(&self.source_map, &body.span);
             let index = self
                 .cov
                 .borrow_mut()
                 .new_function(&name, &range, &body_range);
 
-            match &mut function.body {
-                Some(blockstmt) => {
-                    let b = crate::create_increase_counter_expr(
-                        &crate::constants::idents::IDENT_F,
-                        index,
-                        &self.cov_fn_ident,
-                        None,
-                    );
-                    self.insert_fn_counter(&mut blockstmt.stmts, b);
-                }
-                _ => {
-                    unimplemented!("Unable to process function body node type")
-                }
-            }
+            let b = crate::create_increase_counter_expr(
+                &crate::constants::idents::IDENT_F,
+                index,
+                &self.cov_fn_ident,
+                None,
+            );
+            self.insert_fn_counter(&mut body.stmts, b);
         }
 
         fn is_injected_counter_expr(&self, expr: &Expr) -> bool {
-- 
2.43.0


From f19bacdb776538bf51d2be33f99838c716eaef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:35 +0000
Subject: [PATCH 14/25] fix: inject the coverage template only at the top level
 of the program

---
 .../src/visitors/coverage_visitor.rs                       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 84f21d0..dbb4ddd 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -141,6 +141,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             self.nodes = new_nodes;
         }
 
+        // Body of TypeScript's namespace is module items as well, those do not need coverage template.
+        let is_root = self.nodes.len() == 1;
+
         // TODO: Should module_items need to be added in self.nodes?
         // Do not create coverage instrumentation for directives.
         let directives = crate::macros::count_directives(items.iter());
@@ -172,6 +175,10 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        if !is_root {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-- 
2.43.0


From 7c556a09392b9183d9e73f6286d547acfbd7d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 15/25] hooks: let the verification build read summaries (cfg
 verif_hooks)

---
 packages/istanbul-oxide/src/coverage.rs         |  8 ++++++++
 packages/istanbul-oxide/src/coverage_summary.rs | 11 +++++++++++
 packages/istanbul-oxide/src/lib.rs              |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/packages/istanbul-oxide/src/coverage.rs b/packages/istanbul-oxide/src/coverage.rs
index d6ff480..3841b36 100644
--- a/packages/istanbul-oxide/src/coverage.rs
+++ b/packages/istanbul-oxide/src/coverage.rs
@@ -14,3 +14,11 @@ impl Coverage {
         }
     }
 }
+
+#[cfg(verif_hooks)]
+impl Coverage {
+    /// covered, total, percentage
+    pub fn parts(&self) -> (u32, u32, f32) {
+        (self.covered, self.total, self.coverage)
+    }
+}
diff --git a/packages/istanbul-oxide/src/coverage_summary.rs b/packages/istanbul-oxide/src/coverage_summary.rs
index 4b6ce66..17036c8 100644
--- a/packages/istanbul-oxide/src/coverage_summary.rs
+++ b/packages/istanbul-oxide/src/coverage_summary.rs
@@ -139,6 +139,17 @@ impl CoverageSummary {
     }
 }
 
+#[cfg(verif_hooks)]
+impl CoverageSummary {
+    /// lines, statements, functions, branches, branches_true
+    pub fn parts(&self) -> ([Totals; 4], Option<Totals>) {
+        (
+            [self.lines, self.statements, self.functions, self.branches],
+            self.branches_true,
+        )
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::{CoveragePercentage, CoverageSummary, Totals};
diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..2e822dc 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -1,3 +1,5 @@
+// `verif_hooks` is set by the verification build only.
+#![allow(unexpected_cfgs)]
 mod coverage;
 mod coverage_map;
 mod coverage_summary;
@@ -14,3 +16,10 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+#[cfg(verif_hooks)]
+pub use coverage::Coverage;
+#[cfg(verif_hooks)]
+pub use coverage_summary::{CoveragePercentage as SummaryPercentage, CoverageSummary as Summary, Totals as SummaryTotals};
+#[cfg(verif_hooks)]
+pub use percent::percent as percent_of;
-- 
2.43.0


From c6f7e1f284af1545003de21faf8b9a6427bcc080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 16/25] fix: keep branch truthiness when only one of the merged
 coverage tracks it

---
 packages/istanbul-oxide/src/file_coverage.rs | 58 ++++++++++----------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index a6c790a..4824589 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -308,36 +308,34 @@ impl FileCoverage {
         let branch_map = std::mem::replace(&mut self.branch_map, branches_map_merged);
 
         // Tracking additional information about branch truthiness
-        // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, branches_true_map_merged) =
-                    merge_properties_hits_vec(
-                        branches_true,
-                        &branch_map,
-                        coverage_branches_true,
-                        &coverage.branch_map,
-                        key_from_branch,
-                    );
-
-                // Truthiness is tracked for some of the branches only, keep the ids in sync with
-                // the merged branch map.
-                let ids: IndexMap<String, u32> = self
-                    .branch_map
-                    .iter()
-                    .map(|(id, branch)| (key_from_branch(branch), *id))
-                    .collect();
-
-                self.b_t = Some(
-                    branches_true_hits_merged
-                        .into_iter()
-                        .map(|(idx, hits)| {
-                            let key = key_from_branch(&branches_true_map_merged[&idx]);
-                            (ids.get(&key).copied().unwrap_or(idx), hits)
-                        })
-                        .collect(),
-                );
-            }
+        // can be optionally enabled, for either of the coverage:
+        if self.b_t.is_some() || coverage.b_t.is_some() {
+            let none: BranchHitMap = Default::default();
+            let (branches_true_hits_merged, branches_true_map_merged) = merge_properties_hits_vec(
+                self.b_t.as_ref().unwrap_or(&none),
+                &branch_map,
+                coverage.b_t.as_ref().unwrap_or(&none),
+                &coverage.branch_map,
+                key_from_branch,
+            );
+
+            // Truthiness is tracked for some of the branches only, keep the ids in sync with
+            // the merged branch map.
+            let ids: IndexMap<String, u32> = self
+                .branch_map
+                .iter()
+                .map(|(id, branch)| (key_from_branch(branch), *id))
+                .collect();
+
+            self.b_t = Some(
+                branches_true_hits_merged
+                    .into_iter()
+                    .map(|(idx, hits)| {
+                        let key = key_from_branch(&branches_true_map_merged[&idx]);
+                        (ids.get(&key).copied().unwrap_or(idx), hits)
+                    })
+                    .collect(),
+            );
         }
     }
 
-- 
2.43.0


From 6929687bf60d4852c70e88e5547d2f6f2a319b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 17/25] fix: honor ignore hints in front of the block of if,
 with and arrow functions

---
 .../src/macros/instrumentation_visitor.rs                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 1c56c29..e171311 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -64,7 +64,7 @@ macro_rules! instrumentation_visitor {
                         // insert fn counter expression
                         self.insert_fn_counter(&mut block_stmt.stmts, b);
                         // if arrow fn body is already blockstmt, insert stmt counter for each
-                        self.insert_stmts_counter(&mut block_stmt.stmts);
+                        block_stmt.visit_mut_with(self);
                     }
                     BlockStmtOrExpr::Expr(expr) => {
                         // TODO: refactor common logics creates a blockstmt from single expr
@@ -785,7 +785,7 @@ macro_rules! instrumentation_visitor {
 
                         let body = if let Stmt::Block(mut block_stmt) = stmt_body {
                             // if cons / alt is already blockstmt, insert stmt counter for each
-                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                            block_stmt.visit_mut_with(self);
 
                             let mut new_stmts = vec![expr];
                             new_stmts.extend(block_stmt.stmts.drain(..));
@@ -1008,7 +1008,7 @@ macro_rules! instrumentation_visitor {
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-                        self.insert_stmts_counter(&mut body_block.stmts);
+                        body_block.visit_mut_with(self);
                     } else {
                         let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                             self.source_map.clone(),
-- 
2.43.0


From 44531b930f06b7eecaaeaa6721daddb66b3232ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 18/25] fix: instrument the object expression of with
 statements

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index e171311..f8c75f1 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1006,6 +1006,8 @@ macro_rules! instrumentation_visitor {
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
 
+                    with_stmt.obj.visit_mut_with(self);
+
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
                         body_block.visit_mut_with(self);
-- 
2.43.0


From 1cfbcea48d917c92a5de2aeb3f08659d50122c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 19/25] fix: honor ignore hints in front of parenthesized
 expressions

---
 .../src/macros/create_instrumentation_visitor.rs    |  1 +
 .../src/macros/instrumentation_visitor.rs           | 13 +++++++++++++
 packages/swc-coverage-instrument/src/utils/node.rs  |  1 +
 3 files changed, 15 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 93daa12..9bdbfe5 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -163,6 +163,7 @@ macro_rules! create_instrumentation_visitor {
          }
 
          on_enter!(BinExpr);
+         on_enter!(ParenExpr);
          on_enter!(VarDeclarator);
          on_enter!(VarDecl);
          on_enter!(CondExpr);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f8c75f1..a8d4d18 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -18,6 +18,19 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Unlike babel, parenthesized expression have own node and hints are attached to it.
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_paren_expr(&mut self, paren_expr: &mut ParenExpr) {
+            let (old, ignore_current) = self.on_enter(paren_expr);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    paren_expr.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // FunctionDeclaration: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_fn_decl(&mut self, fn_decl: &mut FnDecl) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 2445a9f..5fe1aed 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -15,6 +15,7 @@ pub enum Node {
     GetterProp,
     MethodProp,
     BinExpr,
+    ParenExpr,
     LogicalExpr,
     CondExpr,
     LabeledStmt,
-- 
2.43.0


From 3d8e1f30b260cdcb67b532a2cdcf6190a1e6753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 20/25] fix: count initialisers of exported let and var holding
 a function

---
 .../src/macros/create_instrumentation_visitor.rs              | 3 +++
 .../src/macros/instrumentation_counter_helper.rs              | 4 ++--
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs  | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 9bdbfe5..a3f11d8 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -23,6 +23,8 @@ macro_rules! create_instrumentation_visitor {
             #[allow(dead_code)] pub before: Vec<Stmt>,
             nodes: Vec<crate::Node>,
             should_ignore: Option<crate::hint_comments::IgnoreScope>,
+            // Currently visiting exported const declaration, which have its own counter.
+            #[allow(dead_code)] export_const: bool,
             $($vis $field: $t,)*
         }
 
@@ -49,6 +51,7 @@ macro_rules! create_instrumentation_visitor {
                     before: vec![],
                     nodes: nodes,
                     should_ignore,
+                    export_const: false,
                     $($field,)*
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index f87e4c2..7015a23 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -278,8 +278,8 @@ macro_rules! instrumentation_counter_helper {
                 // TODO: need to polish logic to determine prepending instead of traversing parent node types
                 let parent = self.nodes.iter().rev().nth(3);
                 match parent {
-                    // Exported declaration have its own counter.
-                    Some(crate::Node::ModuleDecl) => {}
+                    // Exported const declaration have its own counter.
+                    Some(crate::Node::ModuleDecl) if self.export_const => {}
                     // Declarator always belongs to the declaration statement (or the head of
                     // the loop), which is the place to prepend counter.
                     _ => {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index dbb4ddd..3fbf577 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -161,7 +161,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    self.export_const = var_decl.kind == VarDeclKind::Const;
+                    if self.export_const {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From e8820b1c40d834bf54f9c3022d77bfc14b7c596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 21/25] fix: honor ignore hints in front of exported const
 declarations

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 3fbf577..e0bd023 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -149,7 +149,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let directives = crate::macros::count_directives(items.iter());
         let mut new_items: Vec<ModuleItem> = items.drain(..directives).collect();
         for mut item in items.drain(..) {
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -162,7 +162,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
                     self.export_const = var_decl.kind == VarDeclKind::Const;
-                    if self.export_const {
+                    if self.export_const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From b754836c849055b5007e1c4bdc26631f22b9b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 22/25] fix: honor the ignore file hint following the shebang

---
 .../src/utils/hint_comments.rs                        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/utils/hint_comments.rs b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
index 2e93123..8e91135 100644
--- a/packages/swc-coverage-instrument/src/utils/hint_comments.rs
+++ b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
@@ -3,7 +3,7 @@ use regex::Regex as Regexp;
 use swc_core::{
     common::{
         comments::{Comment, Comments},
-        Span,
+        Span, Spanned,
     },
     ecma::ast::*,
 };
@@ -20,10 +20,12 @@ pub static COMMENT_RE: Lazy<Regexp> =
     Lazy::new(|| Regexp::new(r"^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)").unwrap());
 
 pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program) -> bool {
-    let pos = match &program {
-        Program::Module(module) => module.span,
-        Program::Script(script) => script.span,
+    let (pos, first) = match &program {
+        Program::Module(module) => (module.span, module.body.first().map(|item| item.span())),
+        Program::Script(script) => (script.span, script.body.first().map(|item| item.span())),
     };
+    // Comments following the shebang belong to the first item instead of the program.
+    let first = first.unwrap_or(pos);
 
     let validate_comments = |comments: &Option<Vec<Comment>>| {
         if let Some(comments) = comments {
@@ -40,6 +42,7 @@ pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program)
         comments.get_leading(pos.hi),
         comments.get_trailing(pos.lo),
         comments.get_trailing(pos.hi),
+        comments.get_leading(first.lo),
     ]
     .iter()
     .any(|c| validate_comments(c))
-- 
2.43.0


From 90587297cce5ad8a12480a2661afee4d089f2366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 23/25] fix: give object methods without an identifier name
 their source position

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index a8d4d18..041aaab 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -476,6 +476,7 @@ macro_rules! instrumentation_visitor {
                     } else {
                         let ident = Ident {
                             sym: "anonymous".into(),
+                            span: method_prop.key.span(),
                             ..Ident::dummy()
                         };
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
-- 
2.43.0


From 172b38775ed76de753ffb86591af8a831b824b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 24/25] fix: do not insert the coverage function into
 namespaces of a script

---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index e0bd023..6793184 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -209,9 +209,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let directives = crate::macros::count_directives(items.body.iter());
         let mut new_items: Vec<Stmt> = items.body.drain(..directives).collect();
         for mut item in items.body.drain(..) {
+            let (old, _ignore_current) = self.on_enter(&mut item);
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
             new_items.push(item);
+            self.on_exit(old);
         }
         items.body = new_items;
 
-- 
2.43.0


From 7ccfa1fa07f5e9820b8b7de2b3af20dadafd4333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 25/25] fix: leave ambient declarations of TypeScript alone

---
 .../src/macros/instrumentation_visitor.rs          |  7 +++++++
 packages/swc-coverage-instrument/src/macros/mod.rs | 14 ++++++++++++++
 .../src/visitors/coverage_visitor.rs               |  3 ++-
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 041aaab..ccef63a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -312,6 +312,13 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Ambient declarations do not exist at runtime, nothing in there can be covered.
+        fn visit_mut_decl(&mut self, decl: &mut Decl) {
+            if !crate::macros::is_ambient_decl(decl) {
+                decl.visit_mut_children_with(self);
+            }
+        }
+
         // ClassDeclaration: entries(parenthesizedExpressionProp('superClass')),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_class_decl(&mut self, class_decl: &mut ClassDecl) {
diff --git a/packages/swc-coverage-instrument/src/macros/mod.rs b/packages/swc-coverage-instrument/src/macros/mod.rs
index 78e1548..053116f 100644
--- a/packages/swc-coverage-instrument/src/macros/mod.rs
+++ b/packages/swc-coverage-instrument/src/macros/mod.rs
@@ -10,3 +10,17 @@ pub(crate) fn count_directives<'a, T: swc_core::ecma::utils::IsDirective + 'a>(
 ) -> usize {
     items.take_while(|item| item.directive_continue()).count()
 }
+
+/// Whether a declaration exists only at compile time (`declare ..`, `const enum`).
+pub(crate) fn is_ambient_decl(decl: &swc_core::ecma::ast::Decl) -> bool {
+    use swc_core::ecma::ast::Decl;
+
+    match decl {
+        Decl::Class(decl) => decl.declare,
+        Decl::Fn(decl) => decl.declare,
+        Decl::Var(decl) => decl.declare,
+        Decl::TsEnum(decl) => decl.declare || decl.is_const,
+        Decl::TsModule(decl) => decl.declare,
+        _ => false,
+    }
+}
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 6793184..45de6ed 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -161,7 +161,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    self.export_const = var_decl.kind == VarDeclKind::Const;
+                    self.export_const =
+                        var_decl.kind == VarDeclKind::Const && !var_decl.declare;
                     if self.export_const
                         && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
                     {
-- 
2.43.0

