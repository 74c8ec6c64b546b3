From 293f3c98af5155a511c4f13ac552faae071de45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 01/22] fix: evaluate the operand of a nullable type test once

---
 dice-compiler/src/visitor/expr_is.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..1ff6db2 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -7,19 +7,22 @@ impl NodeVisitor<&Is> for Compiler {
     fn visit(&mut self, Is { value, type_, span }: &Is) -> Result<(), Error> {
         if type_.is_nullable {
             // TODO: Replace this with an IS_TYPE_OR_NULL instruction.
-            let type_check_jump;
+            let null_jump;
+            let end_jump;
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
-                    POP;
-                    {self.visit(*value)?};
+                    JUMP_IF_TRUE -> null_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                    {end_jump = self.assembler()?.jump(*span)};
+                    PATCH_JUMP <- null_jump;
+                    POP;
+                    PUSH_BOOL true;
+                    PATCH_JUMP <- end_jump;
                 ]
             }
         } else {
-- 
2.43.0


From a311542a7e1e708eb8fe77ec74756983dc9bff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:07 +0000
Subject: [PATCH 02/22] fix: keep the exits of a null-propagating chain inside
 the chain

---
 dice-compiler/src/visitor/syntax_node.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..2240a2f 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,6 +10,13 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
+        // NOTE: Anything that is not a link of a call chain starts chains of its own, which must only exit themselves.
+        let outer_call_context = if Self::is_call_chain(&node) {
+            None
+        } else {
+            Some(std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context))
+        };
+
         match &node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
@@ -76,11 +83,28 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
             }
         }
 
+        if let Some(call_context) = outer_call_context {
+            self.context()?.scope_stack().top_mut()?.call_context = call_context;
+        }
+
         Ok(())
     }
 }
 
 impl Compiler {
+    fn is_call_chain(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
     fn enter_call(&mut self) -> Result<(), Error> {
         let context = &mut self.context()?.scope_stack().top_mut()?.call_context;
         context.depth += 1;
-- 
2.43.0


From 891e4162f151674e0d295950576db9c61472bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:28 +0000
Subject: [PATCH 03/22] fix: report a function or class whose name another
 declaration has taken

---
 dice-compiler/src/visitor/decl_class.rs | 8 ++++----
 dice-compiler/src/visitor/decl_fn.rs    | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..8c4bea4 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -55,16 +55,16 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
             // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                // NOTE: The name may also have been taken by a declaration of another kind.
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
                         }));
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..b4baaa7 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -68,15 +68,15 @@ impl Compiler {
 
         // NOTE: Check if a function of the given name has already been initialized.
         match &mut local.state {
-            State::Function { ref mut is_initialized } if *is_initialized => {
+            State::Function { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+            // NOTE: The name may also have been taken by a declaration of another kind.
+            _ => {
                 return Err(Error::new(FUNCTION_ALREADY_DECLARED)
                     .with_span(fn_decl.name.span)
                     .with_tags(tags! {
                         name => fn_decl.name.identifier.clone()
                     }));
             }
-            State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From dd7e41e4dc3f5d2844b418c933ecb87cba0eb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:38 +0000
Subject: [PATCH 04/22] fix: report an export of an item without a name instead
 of panicking

---
 dice-compiler/src/visitor/decl_export.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..71b403c 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -48,7 +48,12 @@ impl NodeVisitor<&ExportDecl> for Compiler {
             SyntaxNode::FnDecl(fn_decl) => fn_decl.name.identifier.clone(),
             SyntaxNode::ClassDecl(class_decl) => class_decl.name.identifier.clone(),
             SyntaxNode::LitIdent(lit_ident) => lit_ident.identifier.clone(),
-            _ => unreachable!("Invalid export node type encountered."),
+            // NOTE: Any other item has no name to be exported under.
+            _ => {
+                return Err(Error::new(INVALID_EXPORT_USAGE)
+                    .with_source(self.source.clone())
+                    .with_span(node.span))
+            }
         };
 
         self.assembler()?.store_field(field_name, node.span)?;
-- 
2.43.0


From 4bddf59be9381bdd22b8e8b175907bb7418bfcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:01 +0000
Subject: [PATCH 05/22] fix: reject a super call outside of methods and
 constructors

---
 dice-compiler/src/visitor/expr_super_call.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..123789a 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,15 +1,22 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
-- 
2.43.0


From 9b0ab41487f715a8c9260cac06c6ff332d8d4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 06/22] fix: keep the mutability of destructured variables

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..087daeb 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -52,7 +52,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
 
                 Ok((item.as_str(), slot as u8))
             })
-- 
2.43.0


From 4a5bf6e1e25044acfcbaca4e40f3505859e6e48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:29 +0000
Subject: [PATCH 07/22] fix: leave a for loop with the same stack on break as
 on its end

---
 dice-compiler/src/visitor/expr_for.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..139411f 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -64,8 +64,11 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
+        // NOTE: Only when the iterator is done is its last result still on the stack.
         context.assembler().patch_jump(loop_exit);
+        context.assembler().pop(for_loop.span);
+
+        // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
@@ -73,7 +76,6 @@ impl NodeVisitor<&ForLoop> for Compiler {
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
-- 
2.43.0


From 550e5aa66c8ed13a3d4570e8b7a7ee85c6ca7fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:30 +0000
Subject: [PATCH 08/22] fix: accept continue in a for loop over an iterator

---
 dice-compiler/src/visitor/expr_for.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 139411f..2332160 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -33,7 +33,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        context
+            .scope_stack()
+            .push_scope(ScopeKind::Loop, Some(loop_start as usize));
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
-- 
2.43.0


From 307454e36d31fe84c72078006f4b86f34324aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 09/22] fix: discard the operands of every enclosing construct
 on an early return

---
 dice-compiler/src/visitor/decl_export.rs     |  2 +-
 dice-compiler/src/visitor/expr_assignment.rs | 14 +++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 ++--
 dice-compiler/src/visitor/expr_for.rs        |  2 +-
 dice-compiler/src/visitor/expr_range_loop.rs |  4 ++--
 dice-compiler/src/visitor/literal_list.rs    |  4 ++--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 dice-compiler/src/visitor/mod.rs             | 13 +++++++++++++
 8 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index 71b403c..3989294 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -38,7 +38,7 @@ impl NodeVisitor<&ExportDecl> for Compiler {
             .expect("#export should always be defined in modules.")
             .slot as u8;
         self.assembler()?.load_local(export_slot, node.span);
-        self.visit(node.export)?;
+        self.visit_operand(node.export, 1)?;
 
         let field_name = match self.syntax_tree.get(node.export) {
             SyntaxNode::VarDecl(VarDecl {
diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..c0e6b0d 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_operand(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_operand(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_operand(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_operand(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_operand(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_operand(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_operand(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..220f397 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_operand(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_operand(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 2332160..197b202 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -52,7 +52,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        self.visit(for_loop.body)?;
+        self.visit_operand(for_loop.body, 1)?;
 
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..7703708 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -25,7 +25,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_operand(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
@@ -52,7 +52,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        self.visit(range_loop.body)?;
+        self.visit_operand(range_loop.body, 1)?;
 
         let context = self.context()?;
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..01e99cd 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_operand(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..bcb8a7d 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_operand(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
diff --git a/dice-compiler/src/visitor/mod.rs b/dice-compiler/src/visitor/mod.rs
index 1250b42..7104d77 100644
--- a/dice-compiler/src/visitor/mod.rs
+++ b/dice-compiler/src/visitor/mod.rs
@@ -36,13 +36,26 @@ mod literal_unit;
 mod literal_variable;
 mod syntax_node;
 
+use crate::compiler::Compiler;
 use dice_core::error::Error;
+use dice_syntax::SyntaxNodeId;
 pub use expr_block::{BlockKind, FunctionBlockKind};
 
 pub(super) trait NodeVisitor<T> {
     fn visit(&mut self, node: T) -> Result<(), Error>;
 }
 
+impl Compiler {
+    /// Visit an operand that is evaluated on top of `temporaries` values of the construct it belongs to.
+    pub(super) fn visit_operand(&mut self, operand: SyntaxNodeId, temporaries: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += temporaries;
+        self.visit(operand)?;
+        *self.context()?.temporary_count() -= temporaries;
+
+        Ok(())
+    }
+}
+
 #[derive(Clone, Copy, Eq, PartialEq)]
 pub enum ClassKind {
     Base,
-- 
2.43.0


From e630d9161140207dfd02f178fb1d2b56c913a28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:35 +0000
Subject: [PATCH 10/22] fix: discard the operands of constructs that break or
 continue leave

---
 dice-compiler/src/compiler_stack.rs          | 8 ++++++++
 dice-compiler/src/scope_stack.rs             | 9 +++++++++
 dice-compiler/src/visitor/expr_break.rs      | 6 ++++++
 dice-compiler/src/visitor/expr_continue.rs   | 6 ++++++
 dice-compiler/src/visitor/expr_for.rs        | 9 ++-------
 dice-compiler/src/visitor/expr_loop.rs       | 6 ++----
 dice-compiler/src/visitor/expr_range_loop.rs | 8 ++------
 dice-compiler/src/visitor/expr_while.rs      | 6 ++----
 8 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..f9b9712 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -85,6 +85,14 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
+    /// Start the scope of a loop that keeps `operands` values on the stack while its body runs.
+    pub fn push_loop_scope(&mut self, entry_point: Option<usize>, operands: usize) -> Result<(), Error> {
+        self.scope_stack.push_scope(ScopeKind::Loop, entry_point);
+        self.scope_stack.top_mut()?.temporary_count = self.temporary_count + operands;
+
+        Ok(())
+    }
+
     pub fn finish(mut self, source: Source) -> Bytecode {
         let slot_count = self.scope_stack.slot_count;
         let upvalue_count = self.upvalues().len();
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..2a3aa7b 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -55,6 +55,7 @@ pub struct ScopeContext {
     pub depth: usize,
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
+    pub temporary_count: usize,
     pub exit_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
@@ -67,6 +68,7 @@ impl Default for ScopeContext {
             depth: 0,
             kind: ScopeKind::Block,
             entry_point: None,
+            temporary_count: 0,
             exit_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
@@ -169,6 +171,13 @@ impl ScopeStack {
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// Get the number of temporaries the inner most loop leaves on the stack whenever it's left or restarted.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        self.first_of_kind(ScopeKind::Loop)
+            .map(|scope| scope.temporary_count)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..bbc9cb7 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -11,6 +11,12 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        // NOTE: Discard the temporaries of any construct inside of the loop that is left partially evaluated.
+        let loop_temporaries = context.scope_stack().loop_temporary_count()?;
+        for _ in loop_temporaries..*context.temporary_count() {
+            context.assembler().pop(*span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..6503bc6 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,6 +10,12 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
+        // NOTE: Discard the temporaries of any construct inside of the loop that is left partially evaluated.
+        let loop_temporaries = context.scope_stack().loop_temporary_count()?;
+        for _ in loop_temporaries..*context.temporary_count() {
+            context.assembler().pop(*span);
+        }
+
         let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
         context.assembler().jump_back(loop_start as u64, *span);
 
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 197b202..53f9087 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -4,10 +4,7 @@ use dice_core::{
 };
 use dice_syntax::ForLoop;
 
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-};
+use crate::{compiler::Compiler, scope_stack::State};
 
 use super::NodeVisitor;
 
@@ -33,9 +30,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context
-            .scope_stack()
-            .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+        context.push_loop_scope(Some(loop_start as usize), 1)?;
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..b3d0c7d 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -9,9 +9,7 @@ impl NodeVisitor<&Loop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
-            self.context()?
-                .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            self.context()?.push_loop_scope(Some(loop_start as usize), 0)?;
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 7703708..adc5a76 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,8 +1,4 @@
-use crate::{
-    compiler::Compiler,
-    scope_stack::{ScopeKind, State},
-    visitor::NodeVisitor,
-};
+use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
 use dice_core::{error::Error, span::Span};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
@@ -32,7 +28,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        context.push_loop_scope(None, 1)?;
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..8b1a40b 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -9,9 +9,7 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
-            self.context()?
-                .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+            self.context()?.push_loop_scope(Some(loop_start as usize), 0)?;
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
-- 
2.43.0


From ab5503fcfc4d2a410f6cbae7e36c12abdc08d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:13 +0000
Subject: [PATCH 11/22] fix: report too many variables, arguments or list items
 instead of truncating their count

---
 data/locales/en-US/errors.ftl                |  2 ++
 dice-compiler/src/compiler.rs                |  3 ++-
 dice-compiler/src/decl_scan.rs               | 10 +++++++---
 dice-compiler/src/scope_stack.rs             |  9 ++++++++-
 dice-compiler/src/visitor/decl_class.rs      |  5 +++--
 dice-compiler/src/visitor/decl_import.rs     |  8 +++++---
 dice-compiler/src/visitor/decl_var.rs        |  8 +++++---
 dice-compiler/src/visitor/expr_block.rs      | 20 ++++++++++++--------
 dice-compiler/src/visitor/expr_fn_call.rs    |  6 +++++-
 dice-compiler/src/visitor/expr_for.rs        |  5 +++--
 dice-compiler/src/visitor/expr_range_loop.rs |  8 ++++++--
 dice-compiler/src/visitor/expr_super_call.rs |  9 ++++++++-
 dice-compiler/src/visitor/literal_list.rs    |  6 +++++-
 dice-core/src/error/codes.rs                 |  2 ++
 14 files changed, 73 insertions(+), 28 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..137c2c8 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -14,6 +14,8 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The maximum number of variables (256) has been exceeded for this compilation unit.
+E2103 = The maximum number of arguments of a call or items of a list (255) has been exceeded.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/compiler.rs b/dice-compiler/src/compiler.rs
index f288c45..6093ad3 100644
--- a/dice-compiler/src/compiler.rs
+++ b/dice-compiler/src/compiler.rs
@@ -41,7 +41,8 @@ impl Compiler {
         if let CompilerKind::Module = kind {
             self.context()?
                 .scope_stack()
-                .add_local(EXPORT, State::initialized(false))?;
+                .add_local(EXPORT, State::initialized(false))
+                .with_span(|| Span::new(0..0))?;
         }
 
         self.visit(self.syntax_tree.root())?;
diff --git a/dice-compiler/src/decl_scan.rs b/dice-compiler/src/decl_scan.rs
index 07a16cf..7b57ae5 100644
--- a/dice-compiler/src/decl_scan.rs
+++ b/dice-compiler/src/decl_scan.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt as _};
 use dice_syntax::{Block, ClassDecl, FnDecl, SyntaxNode, SyntaxNodeId};
 
 impl Compiler {
@@ -37,19 +37,23 @@ impl Compiler {
     }
 
     fn scan_fn_decl(&mut self, fn_decl: FnDecl) -> Result<(), Error> {
+        let span = fn_decl.span;
         let name = fn_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Function { is_initialized: false })?;
+            .add_local(name, State::Function { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
 
     fn scan_class_decl(&mut self, class_decl: ClassDecl) -> Result<(), Error> {
+        let span = class_decl.span;
         let name = class_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Class { is_initialized: false })?;
+            .add_local(name, State::Class { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 2a3aa7b..f556ee5 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,4 +1,7 @@
-use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
+use dice_core::error::{
+    codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_VARIABLES},
+    Error,
+};
 
 #[derive(Clone)]
 pub struct ScopeVariable {
@@ -119,6 +122,10 @@ impl ScopeStack {
 
         let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
         let slot = slot_count - 1;
+        if slot > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_VARIABLES));
+        }
+
         let local = ScopeVariable {
             name,
             slot,
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index 8c4bea4..07244e1 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -4,7 +4,7 @@ use dice_core::{
             CLASS_ALREADY_DECLARED, INTERNAL_COMPILER_ERROR, METHOD_RECEIVER_CANNOT_HAVE_TYPE,
             NEW_METHOD_MUST_HAVE_RECEIVER, OPERATOR_MUST_HAVE_RECEIVER,
         },
-        Error,
+        Error, ResultExt as _,
     },
     protocol::{
         class::{NEW, SELF, SUPER},
@@ -38,7 +38,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         let super_slot = self
             .context()?
             .scope_stack()
-            .add_local(SUPER, State::initialized(true))? as u8;
+            .add_local(SUPER, State::initialized(true))
+            .with_span(|| node.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, node.span => [
diff --git a/dice-compiler/src/visitor/decl_import.rs b/dice-compiler/src/visitor/decl_import.rs
index 236c333..5f92e32 100644
--- a/dice-compiler/src/visitor/decl_import.rs
+++ b/dice-compiler/src/visitor/decl_import.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt as _};
 use dice_syntax::ImportDecl;
 
 impl NodeVisitor<&ImportDecl> for Compiler {
@@ -11,7 +11,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(false))
+                    .with_span(|| node.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
@@ -34,7 +35,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
             let module_slot = self
                 .context()?
                 .scope_stack()
-                .add_local(module_import.clone(), State::initialized(false))?;
+                .add_local(module_import.clone(), State::initialized(false))
+                .with_span(|| node.span)?;
 
             self.assembler()?.store_local(module_slot as u8, node.span);
         }
diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 087daeb..8e656d3 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -1,6 +1,6 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt as _};
 use dice_syntax::{VarDecl, VarDeclKind};
 
 impl NodeVisitor<&VarDecl> for Compiler {
@@ -19,7 +19,8 @@ impl Compiler {
         let slot = self
             .context()?
             .scope_stack()
-            .add_local(name, State::initialized(var_decl.is_mutable))? as u8;
+            .add_local(name, State::initialized(var_decl.is_mutable))
+            .with_span(|| var_decl.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, var_decl.span => [
@@ -52,7 +53,8 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))?;
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))
+                    .with_span(|| var_decl.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..9141c33 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error},
+    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt as _},
     protocol::class::SELF,
     span::Span,
 };
@@ -134,13 +134,17 @@ impl Compiler {
         }
 
         for arg in args {
-            let slot = self.context()?.scope_stack().add_local(
-                arg.name.clone(),
-                State::Local {
-                    is_mutable: false,
-                    is_initialized: true,
-                },
-            )? as u8;
+            let slot = self
+                .context()?
+                .scope_stack()
+                .add_local(
+                    arg.name.clone(),
+                    State::Local {
+                        is_mutable: false,
+                        is_initialized: true,
+                    },
+                )
+                .with_span(|| arg.span)? as u8;
 
             if let Some(type_) = &arg.type_ {
                 emit_bytecode! {
diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..95b056d 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_OPERANDS, Error};
 use dice_syntax::FnCall;
 
 impl NodeVisitor<&FnCall> for Compiler {
     fn visit(&mut self, node: &FnCall) -> Result<(), Error> {
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_OPERANDS).with_span(node.span));
+        }
+
         self.visit(node.target)?;
 
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 53f9087..98e1340 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::Error,
+    error::{Error, ResultExt as _},
     protocol::iterator::{DONE, ITER, NEXT, VALUE},
 };
 use dice_syntax::ForLoop;
@@ -33,7 +33,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         context.push_loop_scope(Some(loop_start as usize), 1)?;
         let variable_slot = context
             .scope_stack()
-            .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(for_loop.variable.clone(), State::initialized(false))
+            .with_span(|| for_loop.span)? as u8;
 
         emit_bytecode! {
             context.assembler(), for_loop.span => [
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index adc5a76..f1d4fa9 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,5 +1,8 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::{error::Error, span::Span};
+use dice_core::{
+    error::{Error, ResultExt as _},
+    span::Span,
+};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
 enum RangeLoopKind {
@@ -31,7 +34,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         context.push_loop_scope(None, 1)?;
         let variable_slot = context
             .scope_stack()
-            .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(range_loop.variable.clone(), State::initialized(false))
+            .with_span(|| range_loop.span)? as u8;
 
         // NOTE: Store the start condition and duplicate the end condition, to be consumed by the loop condition.
         // This effectively reverses the order of the end and start conditions on the stack.
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 123789a..76b55bb 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,5 +1,8 @@
 use dice_core::{
-    error::{codes::INVALID_SUPER_CALL, Error},
+    error::{
+        codes::{INVALID_SUPER_CALL, TOO_MANY_OPERANDS},
+        Error,
+    },
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
@@ -17,6 +20,10 @@ impl NodeVisitor<&SuperCall> for Compiler {
             return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
         }
 
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_OPERANDS).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 01e99cd..915978f 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_OPERANDS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        if value.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_OPERANDS).with_span(*span));
+        }
+
         for (index, item) in value.iter().enumerate() {
             self.visit_operand(*item, index)?;
         }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..ed526af 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,8 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static TOO_MANY_VARIABLES: ErrorCode = "E2102";
+pub static TOO_MANY_OPERANDS: ErrorCode = "E2103";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 58ce94c9aa53e05c18c041ce5941218e4000fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:17 +0000
Subject: [PATCH 12/22] fix: report tokens that cannot appear in an expression
 instead of panicking

---
 dice-syntax/src/parser/rules.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..3ed7798 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,9 @@
 use std::collections::HashMap;
 
+use dice_core::error::codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT};
 use dice_core::error::Error;
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +228,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From 06e66dc75b6695369a1ebed24099d566578ad94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 13/22] fix: reject input after an unmatched closing brace

---
 dice-syntax/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..b07ebd5 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,7 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From d6e391f5b51191ce61eeec16215845bdf2b8cdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 14/22] fix: consume the identifier that is exported

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b07ebd5..cd55548 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -321,9 +321,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.next()?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 9188910fb0c257b471b1f9d418431762b011c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:20 +0000
Subject: [PATCH 15/22] fix: skip empty comments

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..48633f9 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From 8e437534af3822e8f384e703ec777affb55bc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:21 +0000
Subject: [PATCH 16/22] fix: display the range operators as they are spelled

---
 dice-syntax/src/ast/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/ast/node.rs b/dice-syntax/src/ast/node.rs
index b3143c6..4c84fa1 100644
--- a/dice-syntax/src/ast/node.rs
+++ b/dice-syntax/src/ast/node.rs
@@ -277,8 +277,8 @@ impl Display for OverloadedOperator {
             OverloadedOperator::LessThanEquals => write!(f, "<="),
             OverloadedOperator::Equals => write!(f, "=="),
             OverloadedOperator::NotEquals => write!(f, "!="),
-            OverloadedOperator::RangeInclusive => write!(f, ".."),
-            OverloadedOperator::RangeExclusive => write!(f, "..="),
+            OverloadedOperator::RangeInclusive => write!(f, "..="),
+            OverloadedOperator::RangeExclusive => write!(f, ".."),
         }
     }
 }
-- 
2.43.0


From a5afef88ba9868a39414868bf72b5385b45a0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:22 +0000
Subject: [PATCH 17/22] fix: keep the quotes of a string key out of the field
 name

---
 dice-syntax/src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index cd55548..670a381 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -951,7 +951,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
-- 
2.43.0


From 1ffcfda0a147e6d0a545482a8ad1012c4ec4f453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:53 +0000
Subject: [PATCH 18/22] fix: give every error code its own value and a message

---
 data/locales/en-US/errors.ftl | 5 ++++-
 dice-core/src/error/codes.rs  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 137c2c8..dcb5018 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
@@ -71,4 +72,6 @@ E3402 = Classes cannot inherit from value types.
 # System errors
 E4000 = A panic has occurred. {$message}
 E4001 = IO error occurred. {$message}
-E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
\ No newline at end of file
+E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
+E4003 = The module '{$name}' is already defined.
+E4004 = The global '{$name}' is already defined.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index ed526af..b3bfc9b 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -75,4 +75,4 @@ pub static PANIC: ErrorCode = "E4000";
 pub static IO_ERROR: ErrorCode = "E4001";
 pub static INVALID_SCRIPT_LOCATION: ErrorCode = "E4002";
 pub static MODULE_ALREADY_EXISTS: ErrorCode = "E4003";
-pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4002";
+pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4004";
-- 
2.43.0


From 6e3d95f54e1aac5cead46690cac67b8a6c2fcd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:32 +0000
Subject: [PATCH 19/22] fix: reject anonymous functions with two parameters of
 one name

---
 dice-compiler/src/visitor/literal_anonymous_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..90d05f0 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -8,6 +8,8 @@ use super::NodeVisitor;
 
 impl NodeVisitor<&LitAnonymousFn> for Compiler {
     fn visit(&mut self, node: &LitAnonymousFn) -> Result<(), Error> {
+        Self::assert_unique_params(&node.args, node.span)?;
+
         let id = uuid::Uuid::new_v4();
         let name = format!("__anonymous_fn_{id}");
         let body = self.syntax_tree.child(node.body);
-- 
2.43.0


From 9a5fd293857c58036b204b851f664a4f9ee6b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 20/22] fix: reject else that is followed by neither if nor a
 block

---
 dice-syntax/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 670a381..a739dcd 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -151,10 +151,12 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next = self.lexer.peek()?;
+
+            match next.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next.span)?,
             }
         } else {
             None
-- 
2.43.0


From 32a56a2f3840f03fbf1696206ebfd5af5baad1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:59 +0000
Subject: [PATCH 21/22] fix: supply the message of a panic raised without one

---
 dice-cli/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dice-cli/src/main.rs b/dice-cli/src/main.rs
index fdc3534..59f1540 100644
--- a/dice-cli/src/main.rs
+++ b/dice-cli/src/main.rs
@@ -72,6 +72,8 @@ fn panic_err(_: &mut dyn Runtime, args: &[Value]) -> Result<Value, Error> {
             message => message.to_string()
         }))
     } else {
-        Err(Error::new(PANIC))
+        Err(Error::new(PANIC).with_tags(tags! {
+            message => "No message was provided."
+        }))
     }
 }
-- 
2.43.0


From 602ddb7e064fb41184066da7dc5ebc6e9d337f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:03 +0000
Subject: [PATCH 22/22] fix: return self from a constructor that captures it

---
 dice-compiler/src/visitor/expr_block.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 9141c33..28cde58 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,12 +81,9 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
-
-        if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
-            self.visit_return(block.span)?
-        } else if let FunctionBlockKind::Constructor(..) = kind {
-            // NOTE: If in context of a constructor, pop the last value, load self, return.
+        if let FunctionBlockKind::Constructor(..) = kind {
+            // NOTE: If in context of a constructor, replace the last value by self. It has to be loaded before it's closed,
+            // since closing over a captured self moves it out of its slot.
             let local_slot = self
                 .context()?
                 .scope_stack()
@@ -98,11 +95,18 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
-                    RET;
                 ]
             }
         }
 
+        self.visit_close_upvalues(block)?;
+
+        if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
+            self.visit_return(block.span)?
+        } else {
+            self.assembler()?.ret(block.span);
+        }
+
         self.context()?.scope_stack().pop_scope()?;
 
         Ok(())
-- 
2.43.0

