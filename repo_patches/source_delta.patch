From bf8d20757c8245a542de25e458c2c49f700f5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:34 +0000
Subject: [PATCH 01/70] fix: keep condition and branches of else-if chains when
 parsing

---
 crates/decy-parser/src/extract/statements.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 331ee8d..09085f1 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -671,13 +671,10 @@ pub(crate) extern "C" fn visit_if_children(
                 }
                 if_data.else_block = Some(else_stmts);
             } else if kind == CXCursor_IfStmt {
-                // else if chain
-                let mut else_stmts = Vec::new();
-                let body_ptr = &mut else_stmts as *mut Vec<Statement>;
-                unsafe {
-                    clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
+                // else if chain: the nested if keeps its own condition and branches
+                if let Some(stmt) = extract_if_stmt(cursor) {
+                    if_data.else_block = Some(vec![stmt]);
                 }
-                if_data.else_block = Some(else_stmts);
             } else {
                 // Single statement in else: else return 0;
                 if let Some(stmt) = extract_single_statement(cursor) {
-- 
2.43.0


From d14bd71eb2baae122fb36a54b8088fcbc7be3de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 02/70] fix: parenthesise compound operands of unary minus and
 bitwise not

---
 crates/decy-codegen/src/expr_gen/calls.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 221aefd..335e776 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -118,7 +118,15 @@ impl CodeGenerator {
             _ => {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
-                format!("{}{}", op_str, operand_code)
+                // Unary operators bind tighter than any binary or conditional operand
+                if matches!(
+                    operand,
+                    HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }
+                ) {
+                    format!("{}({})", op_str, operand_code)
+                } else {
+                    format!("{}{}", op_str, operand_code)
+                }
             }
         }
     }
-- 
2.43.0


From c05f7f6ac0a6b85d570f0bb90b332762e550b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 03/70] fix: do not drop shift and bitwise compound assignments
 when parsing

---
 crates/decy-parser/src/extract/statements.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 09085f1..bf6e7d0 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -454,7 +454,7 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
     }
 }
 
-/// Extract a compound assignment statement (+=, -=, *=, /=, %=).
+/// Extract a compound assignment statement (+=, -=, *=, /=, %=, <<=, >>=, &=, |=, ^=).
 pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
     // Get the translation unit
     let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
@@ -491,6 +491,11 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                         "*=" => Some(BinaryOperator::Multiply),
                         "/=" => Some(BinaryOperator::Divide),
                         "%=" => Some(BinaryOperator::Modulo),
+                        "<<=" => Some(BinaryOperator::LeftShift),
+                        ">>=" => Some(BinaryOperator::RightShift),
+                        "&=" => Some(BinaryOperator::BitwiseAnd),
+                        "|=" => Some(BinaryOperator::BitwiseOr),
+                        "^=" => Some(BinaryOperator::BitwiseXor),
                         _ => None,
                     };
                     if operator.is_some() {
-- 
2.43.0


From 103748731c9da60765ebea6e98521a6d5c48496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 04/70] fix: keep unbraced statement bodies (compound
 assignments, while bodies)

---
 crates/decy-parser/src/extract/expressions.rs | 7 +++++--
 crates/decy-parser/src/extract/statements.rs  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 2df955f..935ed2e 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,8 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_for_stmt, extract_if_stmt, extract_inc_dec_stmt,
-    extract_return_stmt, extract_switch_stmt, extract_var_decl, extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
+    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
+    extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -84,6 +85,7 @@ pub(crate) fn extract_statement(cursor: CXCursor) -> Option<Statement> {
         CXCursor_ContinueStmt => Some(Statement::Continue),
         CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
         CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
         CXCursor_CallExpr => {
             // Function call as statement
             if let Some(Expression::FunctionCall { function, arguments }) =
@@ -130,6 +132,7 @@ pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
         CXCursor_SwitchStmt => extract_switch_stmt(cursor),
         CXCursor_UnaryOperator => extract_inc_dec_stmt(cursor),
         CXCursor_BinaryOperator => extract_assignment_stmt(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_stmt(cursor),
         CXCursor_CallExpr => {
             if let Some(Expression::FunctionCall { function, arguments }) =
                 extract_function_call(cursor)
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index bf6e7d0..36abe39 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1006,6 +1006,9 @@ pub(crate) extern "C" fn visit_while_children(
                 unsafe {
                     clang_visitChildren(cursor, visit_statement, body_ptr as CXClientData);
                 }
+            } else if let Some(stmt) = extract_single_statement(cursor) {
+                // Single statement without braces: while (cond) stmt;
+                while_data.body.push(stmt);
             }
             while_data.child_index += 1;
             CXChildVisit_Continue
-- 
2.43.0


From 8c266c2360bfb73f9653681216f44d09e7cf10f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:10 +0000
Subject: [PATCH 05/70] fix: keep compound-assignment increments and comma
 initialisers of for loops

---
 crates/decy-parser/src/extract/statements.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 36abe39..1fa747e 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -807,6 +807,10 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
             if let Some(stmt) = extract_assignment_stmt(cursor) {
                 stmts.push(stmt);
             }
+        } else if kind == CXCursor_CompoundAssignOperator {
+            if let Some(stmt) = extract_compound_assignment_stmt(cursor) {
+                stmts.push(stmt);
+            }
         } else if kind == CXCursor_UnaryOperator {
             if let Some(stmt) = extract_inc_dec_stmt(cursor) {
                 stmts.push(stmt);
@@ -915,10 +919,9 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
                 unsafe {
                     clang_visitChildren(child0.cursor, visit_statement, ptr as CXClientData);
                 }
-            } else if child0.kind == CXCursor_BinaryOperator {
-                if let Some(stmt) = extract_assignment_stmt(child0.cursor) {
-                    init.push(stmt);
-                }
+            } else {
+                // Assignment or comma-separated assignments
+                init = extract_increment_stmts(child0.cursor);
             }
 
             // Condition
-- 
2.43.0


From fdb3abcace2d19cb3f1115152475145f21dd892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 06/70] fix: run a for loop's increment on continue

---
 crates/decy-codegen/src/stmt_gen.rs | 47 +++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 718e1df..561e4a5 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -659,8 +659,8 @@ impl CodeGenerator {
             code.push_str("loop {\n");
         }
 
-        // Generate loop body
-        for stmt in body {
+        // Generate loop body (`continue` must still run the increment, as in C)
+        for stmt in &Self::increment_before_continue(body, increment) {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -687,6 +687,49 @@ impl CodeGenerator {
         code
     }
 
+    /// Insert a for-loop's increment statements before every `continue` that belongs to it.
+    fn increment_before_continue(
+        body: &[HirStatement],
+        increment: &[HirStatement],
+    ) -> Vec<HirStatement> {
+        let mut result = Vec::with_capacity(body.len());
+        for stmt in body {
+            match stmt {
+                HirStatement::Continue => {
+                    result.extend(increment.iter().cloned());
+                    result.push(HirStatement::Continue);
+                }
+                HirStatement::If { condition, then_block, else_block } => {
+                    result.push(HirStatement::If {
+                        condition: condition.clone(),
+                        then_block: Self::increment_before_continue(then_block, increment),
+                        else_block: else_block
+                            .as_ref()
+                            .map(|block| Self::increment_before_continue(block, increment)),
+                    });
+                }
+                HirStatement::Switch { condition, cases, default_case } => {
+                    result.push(HirStatement::Switch {
+                        condition: condition.clone(),
+                        cases: cases
+                            .iter()
+                            .map(|case| decy_hir::SwitchCase {
+                                value: case.value.clone(),
+                                body: Self::increment_before_continue(&case.body, increment),
+                            })
+                            .collect(),
+                        default_case: default_case
+                            .as_ref()
+                            .map(|block| Self::increment_before_continue(block, increment)),
+                    });
+                }
+                // A nested loop's `continue` belongs to that loop
+                other => result.push(other.clone()),
+            }
+        }
+        result
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
-- 
2.43.0


From 17e5467faa01cae1ee4bbd8b88203976efb762b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:54 +0000
Subject: [PATCH 07/70] fix: keep all statements, shared labels and fallthrough
 of switch cases

---
 crates/decy-codegen/src/stmt_gen.rs          |  28 ++-
 crates/decy-parser/src/extract/statements.rs | 169 ++++++++-----------
 2 files changed, 92 insertions(+), 105 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 561e4a5..04b720d 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -730,6 +730,30 @@ impl CodeGenerator {
         result
     }
 
+    /// Statements executed from a case label on: its own body and, until one of them ends in a
+    /// jump, the bodies of the labels it falls through to (Rust match arms never fall through).
+    fn switch_case_statements<'a>(
+        cases: &'a [decy_hir::SwitchCase],
+        start: usize,
+        default_case: Option<&'a [HirStatement]>,
+    ) -> Vec<&'a HirStatement> {
+        let bodies =
+            cases[start..].iter().map(|case| case.body.as_slice()).chain(default_case);
+        let mut statements = Vec::new();
+        for body in bodies {
+            for stmt in body {
+                statements.push(stmt);
+                if matches!(
+                    stmt,
+                    HirStatement::Break | HirStatement::Continue | HirStatement::Return(_)
+                ) {
+                    return statements;
+                }
+            }
+        }
+        statements
+    }
+
     /// Generate a switch statement as a Rust match expression.
     fn generate_switch_statement(
         &self,
@@ -753,7 +777,7 @@ impl CodeGenerator {
         let condition_is_int = matches!(condition_type, Some(HirType::Int));
 
         // Generate each case
-        for case in cases {
+        for (case_index, case) in cases.iter().enumerate() {
             if let Some(value_expr) = &case.value {
                 // Generate case pattern
                 // DECY-209/DECY-219: If condition is Int and case is CharLiteral,
@@ -773,7 +797,7 @@ impl CodeGenerator {
                 code.push_str(&format!("    {} => {{\n", case_pattern));
 
                 // Generate case body (filter out Break statements)
-                for stmt in &case.body {
+                for stmt in Self::switch_case_statements(cases, case_index, default_case) {
                     if !matches!(stmt, HirStatement::Break) {
                         code.push_str("        ");
                         code.push_str(&self.generate_statement_with_context(
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 1fa747e..2266578 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -8,8 +8,8 @@ use std::ptr;
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
     extract_expression_from_cursor, extract_field_access, extract_float_literal,
-    extract_function_call, extract_int_literal, extract_single_statement, extract_statement,
-    extract_unary_op, extract_variable_ref, try_extract_expression, visit_binary_operand,
+    extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
+    extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
 };
 use super::types::convert_type;
@@ -1033,11 +1033,17 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
-    let mut switch_data =
-        SwitchData { condition: None, cases: Vec::new(), default_case: None, child_index: 0 };
+    let mut switch_data = SwitchData {
+        condition: None,
+        cases: Vec::new(),
+        default_case: None,
+        in_default: false,
+        child_index: 0,
+    };
 
     let data_ptr = &mut switch_data as *mut SwitchData;
 
@@ -1063,6 +1069,7 @@ pub(crate) extern "C" fn visit_switch_children(
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
@@ -1094,6 +1101,9 @@ pub(crate) extern "C" fn visit_switch_children(
 }
 
 /// Visitor callback for switch body to extract cases and default.
+///
+/// Clang attaches only the first statement after a label to the case itself; the
+/// following statements are siblings and belong to the most recent label.
 pub(crate) extern "C" fn visit_switch_body(
     cursor: CXCursor,
     _parent: CXCursor,
@@ -1104,117 +1114,70 @@ pub(crate) extern "C" fn visit_switch_body(
         condition: Option<Expression>,
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
+        in_default: bool,
         child_index: u32,
     }
 
     let switch_data = unsafe { &mut *(client_data as *mut SwitchData) };
-    let kind = unsafe { clang_getCursorKind(cursor) };
 
-    match kind {
-        CXCursor_CaseStmt => {
-            // Extract case statement
-            if let Some(case) = extract_case_stmt(cursor) {
-                switch_data.cases.push(case);
-            }
-            CXChildVisit_Continue
-        }
-        CXCursor_DefaultStmt => {
-            // Extract default statement
-            if let Some(body) = extract_default_stmt(cursor) {
-                switch_data.default_case = Some(body);
+    let mut labelled = cursor;
+    loop {
+        match unsafe { clang_getCursorKind(labelled) } {
+            CXCursor_CaseStmt => {
+                // A case label: its value followed by the labelled statement
+                let children = collect_children(labelled);
+                let value = children.first().and_then(|c| try_extract_expression(*c));
+                switch_data.cases.push(SwitchCase { value, body: Vec::new() });
+                switch_data.in_default = false;
+                match children.get(1) {
+                    Some(stmt) => labelled = *stmt,
+                    None => break,
+                }
             }
-            CXChildVisit_Continue
-        }
-        _ => CXChildVisit_Continue,
-    }
-}
-
-/// Extract a case statement from a cursor.
-pub(crate) fn extract_case_stmt(cursor: CXCursor) -> Option<SwitchCase> {
-    // Case statement has 2 children:
-    // 1. Case value expression
-    // 2. Body (statements following the case label)
-
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
-    }
-
-    let mut case_data = CaseData { value: None, body: Vec::new(), child_index: 0 };
-
-    let data_ptr = &mut case_data as *mut CaseData;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_case_children, data_ptr as CXClientData);
-    }
-
-    Some(SwitchCase { value: case_data.value, body: case_data.body })
-}
-
-/// Visitor for case statement children.
-pub(crate) extern "C" fn visit_case_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    #[repr(C)]
-    struct CaseData {
-        value: Option<Expression>,
-        body: Vec<Statement>,
-        child_index: u32,
-    }
-
-    let case_data = unsafe { &mut *(client_data as *mut CaseData) };
-    let _kind = unsafe { clang_getCursorKind(cursor) };
-
-    match case_data.child_index {
-        0 => {
-            // First child: case value expression
-            if let Some(expr) = try_extract_expression(cursor) {
-                case_data.value = Some(expr);
+            CXCursor_DefaultStmt => {
+                switch_data.default_case = Some(Vec::new());
+                switch_data.in_default = true;
+                match collect_children(labelled).first() {
+                    Some(stmt) => labelled = *stmt,
+                    None => break,
+                }
             }
-            case_data.child_index += 1;
-            CXChildVisit_Continue
-        }
-        _ => {
-            // Subsequent children: statements in case body
-            // Extract statements until we hit another case or default
-            if let Some(stmt) = extract_statement(cursor) {
-                case_data.body.push(stmt);
+            _ => {
+                // An ordinary statement: belongs to the most recent label
+                let body = if switch_data.in_default {
+                    switch_data.default_case.as_mut()
+                } else {
+                    switch_data.cases.last_mut().map(|case| &mut case.body)
+                };
+                if let Some(body) = body {
+                    let body_ptr = body as *mut Vec<Statement> as CXClientData;
+                    if visit_statement(labelled, cursor, body_ptr) == CXChildVisit_Recurse {
+                        unsafe {
+                            clang_visitChildren(labelled, visit_statement, body_ptr);
+                        }
+                    }
+                }
+                break;
             }
-            // Continue recursing to find all statements in the case body
-            CXChildVisit_Recurse
         }
     }
+    CXChildVisit_Continue
 }
 
-/// Extract a default statement from a cursor.
-pub(crate) fn extract_default_stmt(cursor: CXCursor) -> Option<Vec<Statement>> {
-    // Default statement has body statements as children
-    let mut body: Vec<Statement> = Vec::new();
-    let body_ptr = &mut body as *mut Vec<Statement>;
-
-    unsafe {
-        clang_visitChildren(cursor, visit_default_children, body_ptr as CXClientData);
+/// Collect the direct children of a cursor.
+fn collect_children(cursor: CXCursor) -> Vec<CXCursor> {
+    extern "C" fn push_child(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let children = unsafe { &mut *(client_data as *mut Vec<CXCursor>) };
+        children.push(cursor);
+        CXChildVisit_Continue
     }
-
-    Some(body)
-}
-
-/// Visitor for default statement children.
-pub(crate) extern "C" fn visit_default_children(
-    cursor: CXCursor,
-    _parent: CXCursor,
-    client_data: CXClientData,
-) -> CXChildVisitResult {
-    let body = unsafe { &mut *(client_data as *mut Vec<Statement>) };
-
-    // Extract all statements in default body
-    if let Some(stmt) = extract_statement(cursor) {
-        body.push(stmt);
+    let mut children: Vec<CXCursor> = Vec::new();
+    unsafe {
+        clang_visitChildren(cursor, push_child, &mut children as *mut _ as CXClientData);
     }
-
-    CXChildVisit_Continue
+    children
 }
-- 
2.43.0


From e843a1bfa73b7c173eb1384e613e855f7aad62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:40 +0000
Subject: [PATCH 08/70] fix: translate do-while as a loop instead of a single
 execution

---
 crates/decy-parser/src/extract/expressions.rs |  9 ++++---
 crates/decy-parser/src/extract/mod.rs         | 13 +++++++---
 crates/decy-parser/src/extract/statements.rs  | 26 +++++++++++++++++++
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 935ed2e..efdb361 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -6,9 +6,9 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 use super::types::convert_type;
 
@@ -144,7 +144,8 @@ pub(crate) fn extract_single_statement(cursor: CXCursor) -> Option<Statement> {
         }
         CXCursor_BreakStmt => Some(Statement::Break),
         CXCursor_ContinueStmt => Some(Statement::Continue),
-        CXCursor_DoStmt | CXCursor_NullStmt => None, // Not supported yet
+        CXCursor_DoStmt => extract_do_stmt(cursor),
+        CXCursor_NullStmt => None, // Nothing to execute
         _ => None,
     }
 }
diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index a616ccb..71646b3 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -24,9 +24,9 @@ use std::ptr;
 
 use self::expressions::extract_statement;
 use self::statements::{
-    extract_assignment_stmt, extract_compound_assignment_stmt, extract_for_stmt, extract_if_stmt,
-    extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt, extract_var_decl,
-    extract_while_stmt,
+    extract_assignment_stmt, extract_compound_assignment_stmt, extract_do_stmt, extract_for_stmt,
+    extract_if_stmt, extract_inc_dec_stmt, extract_return_stmt, extract_switch_stmt,
+    extract_var_decl, extract_while_stmt,
 };
 
 #[allow(non_upper_case_globals)]
@@ -321,6 +321,13 @@ pub(crate) extern "C" fn visit_statement(
             }
             CXChildVisit_Continue
         }
+        CXCursor_DoStmt => {
+            // Do-while loop
+            if let Some(stmt) = extract_do_stmt(cursor) {
+                statements.push(stmt);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_SwitchStmt => {
             // Switch statement
             if let Some(stmt) = extract_switch_stmt(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2266578..094e1eb 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -962,6 +962,32 @@ pub(crate) fn extract_while_stmt(cursor: CXCursor) -> Option<Statement> {
     Some(Statement::While { condition: while_data.condition?, body: while_data.body })
 }
 
+/// Extract a do-while loop, lowered to `for (;;)` whose increment leaves the loop when the
+/// condition is false, so that `continue` still evaluates the condition.
+pub(crate) fn extract_do_stmt(cursor: CXCursor) -> Option<Statement> {
+    let children = collect_children(cursor);
+    let (body_cursor, cond_cursor) = match children.as_slice() {
+        [body, cond] => (*body, *cond),
+        _ => return None,
+    };
+
+    let mut body: Vec<Statement> = Vec::new();
+    let body_ptr = &mut body as *mut Vec<Statement> as CXClientData;
+    if visit_statement(body_cursor, cursor, body_ptr) == CXChildVisit_Recurse {
+        unsafe {
+            clang_visitChildren(body_cursor, visit_statement, body_ptr);
+        }
+    }
+
+    let condition = Expression::UnaryOp {
+        op: UnaryOperator::LogicalNot,
+        operand: Box::new(extract_expression_from_cursor(cond_cursor)?),
+    };
+    let leave =
+        Statement::If { condition, then_block: vec![Statement::Break], else_block: None };
+    Some(Statement::For { init: Vec::new(), condition: None, increment: vec![leave], body })
+}
+
 /// Visitor for while loop children.
 pub(crate) extern "C" fn visit_while_children(
     cursor: CXCursor,
-- 
2.43.0


From 1eef34c06ef146b3cd85440633856d04a1cf5d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:41 +0000
Subject: [PATCH 09/70] fix: use comparison results as ints when they are
 arithmetic operands

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 38 +++++++++++++------
 crates/decy-codegen/src/expr_gen/calls.rs     | 10 ++++-
 2 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 6e41df2..f9956dd 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -50,21 +50,35 @@ impl CodeGenerator {
             return format!("{{ {}; {} }}", left_code, right_code);
         }
 
-        let left_code = self.generate_expression_with_context(left, ctx);
-        let right_code = self.generate_expression_with_context(right, ctx);
         let op_str = Self::binary_operator_to_string(op);
 
-        let left_str = if matches!(*left, HirExpression::BinaryOp { .. }) {
-            format!("({})", left_code)
-        } else {
-            left_code.clone()
-        };
-
-        let right_str = if matches!(*right, HirExpression::BinaryOp { .. }) {
-            format!("({})", right_code)
-        } else {
-            right_code.clone()
+        // In C a comparison or logical operator yields an int, so it can be an arithmetic operand
+        let is_arithmetic = matches!(
+            op,
+            BinaryOperator::Add
+                | BinaryOperator::Subtract
+                | BinaryOperator::Multiply
+                | BinaryOperator::Divide
+                | BinaryOperator::Modulo
+                | BinaryOperator::LeftShift
+                | BinaryOperator::RightShift
+        );
+        let operand_code = |operand: &HirExpression| {
+            if is_arithmetic && Self::is_boolean_expression(operand) {
+                let code =
+                    self.generate_expression_with_target_type(operand, ctx, Some(&HirType::Int));
+                format!("({})", code)
+            } else {
+                let code = self.generate_expression_with_context(operand, ctx);
+                if matches!(operand, HirExpression::BinaryOp { .. }) {
+                    format!("({})", code)
+                } else {
+                    code
+                }
+            }
         };
+        let left_str = operand_code(left);
+        let right_str = operand_code(right);
 
         if matches!(op, BinaryOperator::Add | BinaryOperator::Subtract) {
             if let Some(result) =
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 335e776..d1f73b5 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -119,7 +119,15 @@ impl CodeGenerator {
                 let op_str = Self::unary_operator_to_string(op);
                 let operand_code = self.generate_expression_with_context(operand, ctx);
                 // Unary operators bind tighter than any binary or conditional operand
-                if matches!(
+                if Self::is_boolean_expression(operand) {
+                    // In C a comparison or logical operator yields an int
+                    let int_code = self.generate_expression_with_target_type(
+                        operand,
+                        ctx,
+                        Some(&HirType::Int),
+                    );
+                    format!("{}({})", op_str, int_code)
+                } else if matches!(
                     operand,
                     HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }
                 ) {
-- 
2.43.0


From 091034ad5f7d89ff9bdb5d22ee79bccf277df243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:41 +0000
Subject: [PATCH 10/70] fix: compare integer for-loop conditions with zero

---
 crates/decy-codegen/src/stmt_gen.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 04b720d..5dafb62 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -651,10 +651,14 @@ impl CodeGenerator {
 
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
-            code.push_str(&format!(
-                "while {} {{\n",
-                self.generate_expression_with_context(cond, ctx)
-            ));
+            let cond_code = self.generate_expression_with_context(cond, ctx);
+            // An integer condition is true when non-zero
+            let is_int = matches!(ctx.infer_expression_type(cond), Some(HirType::Int));
+            if is_int && !Self::is_boolean_expression(cond) {
+                code.push_str(&format!("while ({}) != 0 {{\n", cond_code));
+            } else {
+                code.push_str(&format!("while {} {{\n", cond_code));
+            }
         } else {
             code.push_str("loop {\n");
         }
-- 
2.43.0


From b5d33ea6fb13d9f343a530ff5e6a2103ce459920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:56 +0000
Subject: [PATCH 11/70] fix: tell for-loop initialiser, condition and increment
 apart by position

---
 crates/decy-parser/src/extract/statements.rs | 92 ++++++++++++++++++++
 1 file changed, 92 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 094e1eb..904ea3e 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -844,6 +844,31 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     // Process children before body
     let pre_body = &collector.children[..body_idx];
 
+    // Assign each child to the header part it lies in, by the two separating semicolons
+    if let Some((first_semi, second_semi)) = for_header_semicolons(cursor) {
+        for child in pre_body {
+            let start = cursor_start_offset(child.cursor);
+            if start < first_semi {
+                if child.kind == CXCursor_DeclStmt {
+                    // DECY-224: Collect ALL declarations
+                    let ptr = &mut init as *mut Vec<Statement>;
+                    unsafe {
+                        clang_visitChildren(child.cursor, visit_statement, ptr as CXClientData);
+                    }
+                } else {
+                    // Assignment or comma-separated assignments
+                    init.extend(extract_increment_stmts(child.cursor));
+                }
+            } else if start < second_semi {
+                condition = extract_expression_from_cursor(child.cursor);
+            } else {
+                // DECY-224: Handle comma operators
+                increment.extend(extract_increment_stmts(child.cursor));
+            }
+        }
+        return Some(Statement::For { init, condition, increment, body });
+    }
+
     match pre_body.len() {
         0 => {
             // for (;;) - infinite loop with no init/condition/increment
@@ -938,6 +963,73 @@ pub(crate) fn extract_for_stmt(cursor: CXCursor) -> Option<Statement> {
     Some(Statement::For { init, condition, increment, body })
 }
 
+/// File offset at which a cursor starts (in the expanded source).
+fn cursor_start_offset(cursor: CXCursor) -> u32 {
+    let mut offset = 0u32;
+    unsafe {
+        let start = clang_getRangeStart(clang_getCursorExtent(cursor));
+        clang_getExpansionLocation(
+            start,
+            ptr::null_mut(),
+            ptr::null_mut(),
+            ptr::null_mut(),
+            &mut offset,
+        );
+    }
+    offset
+}
+
+/// File offsets of the two semicolons in a for-loop header, if they can be found.
+fn for_header_semicolons(cursor: CXCursor) -> Option<(u32, u32)> {
+    let tu = unsafe { clang_Cursor_getTranslationUnit(cursor) };
+    if tu.is_null() {
+        return None;
+    }
+    let mut tokens = ptr::null_mut();
+    let mut num_tokens = 0;
+    unsafe {
+        clang_tokenize(tu, clang_getCursorExtent(cursor), &mut tokens, &mut num_tokens);
+    }
+    let mut depth = 0;
+    let mut semicolons = Vec::new();
+    for i in 0..num_tokens {
+        unsafe {
+            let token = *tokens.add(i as usize);
+            let spelling = clang_getTokenSpelling(tu, token);
+            let text = CStr::from_ptr(clang_getCString(spelling)).to_string_lossy().into_owned();
+            clang_disposeString(spelling);
+            match text.as_str() {
+                "(" => depth += 1,
+                ")" => {
+                    depth -= 1;
+                    if depth == 0 {
+                        break;
+                    }
+                }
+                ";" if depth == 1 => {
+                    let mut offset = 0u32;
+                    clang_getExpansionLocation(
+                        clang_getTokenLocation(tu, token),
+                        ptr::null_mut(),
+                        ptr::null_mut(),
+                        ptr::null_mut(),
+                        &mut offset,
+                    );
+                    semicolons.push(offset);
+                }
+                _ => {}
+            }
+        }
+    }
+    unsafe {
+        clang_disposeTokens(tu, tokens, num_tokens);
+    }
+    match semicolons.as_slice() {
+        [first, second] => Some((*first, *second)),
+        _ => None,
+    }
+}
+
 /// Extract a while loop statement.
 pub(crate) fn extract_while_stmt(cursor: CXCursor) -> Option<Statement> {
     // A while loop has 2 children:
-- 
2.43.0


From 7a3d8045bc37c87c9a796360f979c6fefe0d6197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:19 +0000
Subject: [PATCH 12/70] fix: compare any non-boolean for-loop condition with
 zero

---
 crates/decy-codegen/src/stmt_gen.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 5dafb62..9be3ad6 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -652,10 +652,13 @@ impl CodeGenerator {
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
             let cond_code = self.generate_expression_with_context(cond, ctx);
-            // An integer condition is true when non-zero
-            let is_int = matches!(ctx.infer_expression_type(cond), Some(HirType::Int));
-            if is_int && !Self::is_boolean_expression(cond) {
-                code.push_str(&format!("while ({}) != 0 {{\n", cond_code));
+            // As for `while`: a condition that is not boolean is true when non-zero
+            if !Self::is_boolean_expression(cond) {
+                if matches!(ctx.infer_expression_type(cond), Some(HirType::Pointer(_))) {
+                    code.push_str(&format!("while !{}.is_null() {{\n", cond_code));
+                } else {
+                    code.push_str(&format!("while ({}) != 0 {{\n", cond_code));
+                }
             } else {
                 code.push_str(&format!("while {} {{\n", cond_code));
             }
-- 
2.43.0


From a762e863c9f0af32eab3e2f38ecdea32aa360ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:35 +0000
Subject: [PATCH 13/70] fix: read through the pointer in *p op= v and (*p)++

---
 crates/decy-hir/src/lib.rs                   | 12 ++++++++++--
 crates/decy-parser/src/extract/statements.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/decy-hir/src/lib.rs b/crates/decy-hir/src/lib.rs
index 7a345ef..eef2942 100644
--- a/crates/decy-hir/src/lib.rs
+++ b/crates/decy-hir/src/lib.rs
@@ -1419,11 +1419,19 @@ impl HirStatement {
             // These become DerefAssignment with a BinaryOp value
             Statement::DerefCompoundAssignment { target, op, value } => {
                 let hir_target = HirExpression::from_ast_expression(target);
+                // Field and element targets are places themselves; anything else is the pointer
+                // that is dereferenced, so the old value is read through it (*p += v)
+                let old_value = match &hir_target {
+                    HirExpression::FieldAccess { .. }
+                    | HirExpression::PointerFieldAccess { .. }
+                    | HirExpression::ArrayIndex { .. } => hir_target.clone(),
+                    pointer => HirExpression::Dereference(Box::new(pointer.clone())),
+                };
                 HirStatement::DerefAssignment {
-                    target: hir_target.clone(),
+                    target: hir_target,
                     value: HirExpression::BinaryOp {
                         op: convert_binary_operator(*op),
-                        left: Box::new(hir_target),
+                        left: Box::new(old_value),
                         right: Box::new(HirExpression::from_ast_expression(value)),
                     },
                 }
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 904ea3e..ba2734e 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -316,6 +316,14 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
             }
         }
 
+        // Check for a dereferenced pointer ((*p)++)
+        if kind == CXCursor_UnaryOperator {
+            if let Some(expr @ Expression::Dereference(_)) = extract_unary_op(cursor) {
+                data.0 = Some(expr);
+                return CXChildVisit_Break;
+            }
+        }
+
         // Fall back to simple variable reference
         if kind == CXCursor_DeclRefExpr {
             let name_cxstring = unsafe { clang_getCursorSpelling(cursor) };
@@ -428,6 +436,15 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
 
                 return Some(Statement::ArrayIndexAssignment { array, index, value });
             }
+            // (*p)++ → *p += 1
+            Expression::Dereference(pointer) => {
+                let op = if delta > 0 { BinaryOperator::Add } else { BinaryOperator::Subtract };
+                return Some(Statement::DerefCompoundAssignment {
+                    target: *pointer,
+                    op,
+                    value: Expression::IntLiteral(1),
+                });
+            }
             _ => {} // Fall through to simple variable handling
         }
     }
-- 
2.43.0


From e5826f5819f2b4029eb1656bca7df48808de048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:06 +0000
Subject: [PATCH 14/70] fix: zero the remaining elements of a partially
 initialised array

---
 crates/decy-codegen/src/expr_gen/misc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 04bf3b8..1f46cbe 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -303,7 +303,10 @@ impl CodeGenerator {
                         .collect();
 
                     if let Some(n) = size {
-                        if elements.len() == 1 {
+                        // `{0}` fills the array; any other single value only sets element 0
+                        if elements.len() == 1
+                            && (*n == 1 || matches!(initializers[0], HirExpression::IntLiteral(0)))
+                        {
                             format!("[{}; {}]", elements[0], *n)
                         } else if elements.len() < *n {
                             let mut padded = elements.clone();
-- 
2.43.0


From 07e6be3f7c41c638c346b6c4d16dcdf83df16190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:06 +0000
Subject: [PATCH 15/70] fix: keep declarations of a constant branch in their
 own scope

---
 crates/decy-core/src/optimize.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index efcca84..fc4863d 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -194,7 +194,19 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     for stmt in stmts {
         match stmt {
             HirStatement::If { condition, then_block, else_block } => {
-                if let Some(always_true) = is_constant_truthy(&condition) {
+                let taken = match is_constant_truthy(&condition) {
+                    Some(true) => Some(then_block.as_slice()),
+                    Some(false) => else_block.as_deref(),
+                    None => None,
+                };
+                if taken.is_some_and(declares_variable) {
+                    // The branch is a scope of its own: keep its declarations inside it
+                    result.push(HirStatement::If {
+                        condition,
+                        then_block: remove_dead_branches(then_block),
+                        else_block: else_block.map(remove_dead_branches),
+                    });
+                } else if let Some(always_true) = is_constant_truthy(&condition) {
                     if always_true {
                         // if(1) { body } → body
                         result.extend(
@@ -232,6 +244,11 @@ fn remove_dead_branches(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if a block declares variables of its own.
+fn declares_variable(block: &[HirStatement]) -> bool {
+    block.iter().any(|stmt| matches!(stmt, HirStatement::VariableDeclaration { .. }))
+}
+
 /// Check if an expression is a constant truthy/falsy value.
 fn is_constant_truthy(expr: &HirExpression) -> Option<bool> {
     match expr {
-- 
2.43.0


From 9911184ff1789ac7b501930cca2635f05eb09d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:06 +0000
Subject: [PATCH 16/70] fix: do not overflow when folding unary minus

---
 crates/decy-core/src/optimize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index fc4863d..ff05c32 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -129,7 +129,9 @@ fn fold_constants_expr(expr: HirExpression) -> HirExpression {
         HirExpression::UnaryOp { op, operand } => {
             let operand = fold_constants_expr(*operand);
             if let (decy_hir::UnaryOperator::Minus, HirExpression::IntLiteral(v)) = (op, &operand) {
-                return HirExpression::IntLiteral(-v);
+                if let Some(negated) = v.checked_neg() {
+                    return HirExpression::IntLiteral(negated);
+                }
             }
             HirExpression::UnaryOp { op, operand: Box::new(operand) }
         }
-- 
2.43.0


From f8f88e4f0b23edf01d5bf32b2f18e8670f7ac85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:06 +0000
Subject: [PATCH 17/70] fix: keep temporaries whose type narrows the returned
 value

---
 crates/decy-core/src/optimize.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/decy-core/src/optimize.rs b/crates/decy-core/src/optimize.rs
index ff05c32..67085a0 100644
--- a/crates/decy-core/src/optimize.rs
+++ b/crates/decy-core/src/optimize.rs
@@ -287,13 +287,18 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
         // Check for pattern: let tmp = expr; return tmp;
         if i + 1 < stmts.len() {
             if let (
-                HirStatement::VariableDeclaration { name, initializer: Some(init_expr), .. },
+                HirStatement::VariableDeclaration {
+                    name,
+                    var_type,
+                    initializer: Some(init_expr),
+                },
                 HirStatement::Return(Some(HirExpression::Variable(ret_var))),
             ) = (&stmts[i], &stmts[i + 1])
             {
                 if name == ret_var
                     && count_uses(name, &stmts[i + 2..]) == 0
                     && !is_allocation_expr(init_expr)
+                    && !is_narrowing_type(var_type)
                 {
                     // Replace with direct return
                     result.push(HirStatement::Return(Some(init_expr.clone())));
@@ -309,6 +314,17 @@ fn eliminate_temporaries(stmts: Vec<HirStatement>) -> Vec<HirStatement> {
     result
 }
 
+/// Check if storing a value in a variable of this type may change the value.
+fn is_narrowing_type(var_type: &decy_hir::HirType) -> bool {
+    matches!(
+        var_type,
+        decy_hir::HirType::Char
+            | decy_hir::HirType::SignedChar
+            | decy_hir::HirType::Bool
+            | decy_hir::HirType::Float
+    )
+}
+
 /// Check if an expression is an allocation (malloc, calloc, realloc, cast wrapping allocation).
 /// These should NOT be inlined because box_transform needs the variable pattern.
 fn is_allocation_expr(expr: &HirExpression) -> bool {
-- 
2.43.0


From 3738591605e48184a412f0f793081c54141f57bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 18/70] fix: roll back to a version older than the active one

---
 crates/decy-ownership/src/model_versioning.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-ownership/src/model_versioning.rs b/crates/decy-ownership/src/model_versioning.rs
index 484a436..7390f44 100644
--- a/crates/decy-ownership/src/model_versioning.rs
+++ b/crates/decy-ownership/src/model_versioning.rs
@@ -371,8 +371,8 @@ impl ModelVersionManager {
             .versions
             .iter()
             .enumerate()
+            .take(current_idx) // Only versions older than the active one
             .rev()
-            .skip(1) // Skip current
             .find(|(_, e)| !e.rolled_back)
             .map(|(i, _)| i)
             .ok_or("No previous version available for rollback")?;
-- 
2.43.0


From c1a75549d905d3eeb0c4a0a0e7ce5076705a2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 19/70] fix: number retrained models after the newest
 registered version

---
 crates/decy-ownership/src/retraining_pipeline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/decy-ownership/src/retraining_pipeline.rs b/crates/decy-ownership/src/retraining_pipeline.rs
index 4ad7fe2..1bdf06a 100644
--- a/crates/decy-ownership/src/retraining_pipeline.rs
+++ b/crates/decy-ownership/src/retraining_pipeline.rs
@@ -427,11 +427,13 @@ impl<T: ModelTrainer> RetrainingPipeline<T> {
             }
         }
 
-        // Promote new model
+        // Promote new model (numbered after the newest registered version, which is
+        // newer than the active one after a rollback or an unactivated registration)
         let quality_metrics = metrics.to_quality_metrics();
         let next_version = self
             .version_manager
-            .active_version()
+            .versions()
+            .last()
             .map(|e| e.version.bump_minor())
             .unwrap_or_else(|| ModelVersion::new(1, 0, 0));
 
-- 
2.43.0


From fafdbd9f26b1bc388e04dc8c6b2f1bff00764c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:39 +0000
Subject: [PATCH 20/70] fix: treat a deleted dependency as a cache miss

---
 crates/decy-core/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c2f0317..5ec4a0b 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -456,11 +456,10 @@ impl TranspilationCache {
 
         // Check if any dependency has changed
         for (dep_path, cached_hash) in &entry.dependency_hashes {
-            if let Ok(current_dep_hash) = self.compute_hash(dep_path) {
-                if &current_dep_hash != cached_hash {
-                    self.misses += 1;
-                    return None;
-                }
+            // A dependency that can no longer be read has changed as well
+            if self.compute_hash(dep_path).ok().as_ref() != Some(cached_hash) {
+                self.misses += 1;
+                return None;
             }
         }
 
-- 
2.43.0


From 152074a6b120b478e987ec3821f969967ccb1917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 21/70] fix: emit functions in a fixed order when transpiling
 from a file path

---
 crates/decy-core/src/lib.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 5ec4a0b..d97e7ec 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1331,23 +1331,7 @@ fn process_ast_to_rust(ast: decy_parser::Ast, _base_dir: Option<&Path>) -> Resul
         ast.functions().iter().map(HirFunction::from_ast_function).collect();
 
     // DECY-190: Deduplicate functions
-    let hir_functions: Vec<HirFunction> = {
-        use std::collections::HashMap;
-        let mut func_map: HashMap<String, HirFunction> = HashMap::new();
-
-        for func in all_hir_functions {
-            let name = func.name().to_string();
-            if let Some(existing) = func_map.get(&name) {
-                if func.has_body() && !existing.has_body() {
-                    func_map.insert(name, func);
-                }
-            } else {
-                func_map.insert(name, func);
-            }
-        }
-
-        func_map.into_values().collect()
-    };
+    let hir_functions = deduplicate_functions(all_hir_functions);
 
     // Convert structs to HIR
     let hir_structs: Vec<decy_hir::HirStruct> = ast
-- 
2.43.0


From 73cddfd8216f340d618b6464d82bc810148fed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 22/70] fix: resolve includes relative to the transpiled file

---
 crates/decy-core/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index d97e7ec..5afc1f8 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1598,8 +1598,9 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
     // Parse dependencies from #include directives (simplified: just detect presence)
     let dependencies = extract_dependencies(path, &c_code)?;
 
-    // Transpile the C code using the main pipeline
-    let rust_code = transpile(&c_code)?;
+    // Transpile the C code using the main pipeline, resolving #include directives
+    // relative to the file
+    let rust_code = transpile_with_includes(&c_code, path.parent())?;
 
     // Extract function names from the generated Rust code
     let functions_exported = extract_function_names(&rust_code);
-- 
2.43.0


From 25c479247751e4c7f8c96d7ee7c3701526a2d168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 23/70] fix: list nested includes among a file's dependencies

---
 crates/decy-core/src/lib.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 5afc1f8..b0a39ec 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -1620,9 +1620,19 @@ pub fn transpile_file(path: &Path, _context: &ProjectContext) -> Result<Transpil
 /// Extract dependencies from #include directives in C code.
 ///
 /// This is a simplified implementation that detects #include directives
-/// and resolves them relative to the source file's directory.
+/// and resolves them relative to the source file's directory. Headers included
+/// by headers are listed too, as their content ends up in the output.
 fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>> {
     let mut dependencies = Vec::new();
+    collect_dependencies(source_path, c_code, &mut dependencies)?;
+    Ok(dependencies)
+}
+
+fn collect_dependencies(
+    source_path: &Path,
+    c_code: &str,
+    dependencies: &mut Vec<PathBuf>,
+) -> Result<()> {
     let source_dir = source_path
         .parent()
         .ok_or_else(|| anyhow::anyhow!("Source file has no parent directory"))?;
@@ -1635,15 +1645,18 @@ fn extract_dependencies(source_path: &Path, c_code: &str) -> Result<Vec<PathBuf>
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() {
-                        dependencies.push(header_path);
+                    if header_path.exists() && !dependencies.contains(&header_path) {
+                        dependencies.push(header_path.clone());
+                        if let Ok(header_code) = std::fs::read_to_string(&header_path) {
+                            collect_dependencies(&header_path, &header_code, dependencies)?;
+                        }
                     }
                 }
             }
         }
     }
 
-    Ok(dependencies)
+    Ok(())
 }
 
 /// Extract function names from generated Rust code.
-- 
2.43.0


From 1294d3095eb1c747a987160af0eb84e00b87341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 24/70] fix: resolve includes and record dependencies in
 transpile-project

---
 crates/decy/src/main.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 924b38c..64feeaa 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -793,10 +793,6 @@ fn transpile_project(
             }
         }
 
-        // Read C code
-        let c_code = fs::read_to_string(&file_path)
-            .with_context(|| format!("Failed to read {}", file_path.display()))?;
-
         if dry_run {
             // Dry run mode - always show what would be done (that's the point of dry-run!)
             if !quiet {
@@ -808,8 +804,9 @@ fn transpile_project(
         }
 
         // Transpile
-        let rust_code = decy_core::transpile(&c_code)
+        let transpiled = decy_core::transpile_file(&file_path, &decy_core::ProjectContext::new())
             .with_context(|| format!("Failed to transpile {}", file_path.display()))?;
+        let rust_code = &transpiled.rust_code;
 
         total_lines += rust_code.lines().count();
 
@@ -822,7 +819,7 @@ fn transpile_project(
         }
 
         // Write output
-        fs::write(&output_path, &rust_code)
+        fs::write(&output_path, rust_code)
             .with_context(|| format!("Failed to write {}", output_path.display()))?;
 
         if verbose {
@@ -831,13 +828,6 @@ fn transpile_project(
 
         // Update cache
         if use_cache {
-            let transpiled = decy_core::TranspiledFile {
-                source_path: file_path.clone(),
-                rust_code: rust_code.clone(),
-                dependencies: vec![], // Would be populated by actual parser
-                functions_exported: vec![], // Would be populated by actual parser
-                ffi_declarations: String::new(), // Would be populated by actual parser
-            };
             cache.insert(&file_path, &transpiled);
         }
 
-- 
2.43.0


From 58d375c25f8ac394fdff645f0ab03bb17567ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:27 +0000
Subject: [PATCH 25/70] fix: write the output of cached files in
 transpile-project

---
 crates/decy/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 64feeaa..d5e3a0d 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -782,7 +782,15 @@ fn transpile_project(
 
         // Check cache
         if use_cache {
-            if let Some(_cached) = cache.get(&file_path) {
+            if let Some(cached) = cache.get(&file_path) {
+                // The output directory may be new or its file outdated
+                let output_path = output_dir.join(relative_path).with_extension("rs");
+                if let Some(parent) = output_path.parent() {
+                    fs::create_dir_all(parent)?;
+                }
+                fs::write(&output_path, &cached.rust_code)
+                    .with_context(|| format!("Failed to write {}", output_path.display()))?;
+
                 if verbose {
                     println!("✓ Cached: {}", relative_path.display());
                 }
-- 
2.43.0


From 14d95e3c1a4d23b2aafd0a5feccd147205b7a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:19 +0000
Subject: [PATCH 26/70] fix: enforce the timeout of differential tests

---
 crates/decy-verify/src/diff_test.rs | 57 +++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index a1e88c7..799f9f6 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,8 +18,11 @@
 //! ```
 
 use anyhow::{Context, Result};
+use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::Command;
+use std::process::{Command, Stdio};
+use std::thread::JoinHandle;
+use std::time::{Duration, Instant};
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -147,6 +150,52 @@ pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
     })
 }
 
+/// Run a compiled binary and capture its output, killing it (and failing) when it
+/// runs for longer than `timeout`.
+fn run_binary_with_timeout(binary: &Path, timeout: Duration) -> Result<ExecutionOutput> {
+    let mut child = Command::new(binary)
+        .stdin(Stdio::null())
+        .stdout(Stdio::piped())
+        .stderr(Stdio::piped())
+        .spawn()
+        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
+
+    // Drain the pipes while waiting, so that a chatty program cannot block on them
+    let stdout = child.stdout.take().map(read_in_background);
+    let stderr = child.stderr.take().map(read_in_background);
+    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
+        let bytes = reader.and_then(|r| r.join().ok()).unwrap_or_default();
+        String::from_utf8_lossy(&bytes).into_owned()
+    };
+
+    let deadline = Instant::now() + timeout;
+    let status = loop {
+        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
+            break status;
+        }
+        if Instant::now() >= deadline {
+            let _ = child.kill();
+            let _ = child.wait();
+            anyhow::bail!("timed out after {}s: {}", timeout.as_secs(), binary.display());
+        }
+        std::thread::sleep(Duration::from_millis(5));
+    };
+
+    Ok(ExecutionOutput {
+        stdout: collect(stdout),
+        stderr: collect(stderr),
+        exit_code: status.code().unwrap_or(-1),
+    })
+}
+
+fn read_in_background<R: Read + Send + 'static>(mut source: R) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut bytes = Vec::new();
+        let _ = source.read_to_end(&mut bytes);
+        bytes
+    })
+}
+
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
 /// execute both, and compare outputs.
 pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Result<DiffTestResult> {
@@ -157,8 +206,10 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
-    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
+    let timeout = Duration::from_secs(config.timeout_secs);
+    let c_output = run_binary_with_timeout(&c_bin, timeout).context("Failed to run C binary")?;
+    let rust_output =
+        run_binary_with_timeout(&rs_bin, timeout).context("Failed to run Rust binary")?;
 
     // Compare
     let stdout_matches = c_output.stdout == rust_output.stdout;
-- 
2.43.0


From 4d13390992bed3a6206a546dd518801b781f60df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 27/70] fix: honour the - and + flags of printf conversions

---
 crates/decy-codegen/src/expr_gen/misc.rs | 27 +++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 1f46cbe..ffae733 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -744,16 +744,21 @@ impl CodeGenerator {
                 let start = i;
                 i += 1; // skip %
 
-                let mut flags = String::new();
+                let mut zero_pad = false;
+                let mut left_align = false;
+                let mut plus_sign = false;
                 let mut width = String::new();
                 let mut precision = String::new();
 
                 // Parse flags: -, +, space, #, 0
                 while i < chars.len() && "-+ #0".contains(chars[i]) {
-                    if chars[i] == '0' {
-                        flags.push('0'); // zero-padding
+                    match chars[i] {
+                        '0' => zero_pad = true,
+                        '-' => left_align = true,
+                        '+' => plus_sign = true,
+                        // Skip other flags for now (space, #)
+                        _ => {}
                     }
-                    // Skip other flags for now (- is left-align, + is sign, etc.)
                     i += 1;
                 }
 
@@ -782,6 +787,18 @@ impl CodeGenerator {
                     let spec = chars[i];
                     i += 1;
 
+                    // Rust's order is alignment, sign, zero-padding (which C's '-' overrides)
+                    let mut flags = String::new();
+                    if left_align && !width.is_empty() {
+                        flags.push('<');
+                    }
+                    if plus_sign && !zero_pad && "dif".contains(spec) {
+                        flags.push('+');
+                    }
+                    if zero_pad && !left_align {
+                        flags.push('0');
+                    }
+
                     // Build Rust format specifier
                     let rust_spec = match spec {
                         'd' | 'i' | 'u' => {
@@ -825,7 +842,7 @@ impl CodeGenerator {
                                 if !width.is_empty() {
                                     format!("{{:{}{}.{}}}", flags, width, precision)
                                 } else {
-                                    format!("{{:.{}}}", precision)
+                                    format!("{{:{}.{}}}", flags.trim_end_matches('0'), precision)
                                 }
                             } else if !width.is_empty() {
                                 format!("{{:{}{}}}", flags, width)
-- 
2.43.0


From 30c97e5fe435ca827cd67338a94c98f676aeb1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 28/70] fix: escape literal braces in printf format strings

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index ffae733..8c88554 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -873,6 +873,10 @@ impl CodeGenerator {
                     result.push_str(&input[start..]);
                 }
             } else {
+                // Braces are literal in C but special in Rust format strings
+                if chars[i] == '{' || chars[i] == '}' {
+                    result.push(chars[i]);
+                }
                 result.push(chars[i]);
                 i += 1;
             }
-- 
2.43.0


From 69ce4f534f4a903527138986f48fde6d927a5d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 29/70] fix: print string literals passed for %s instead of
 reading past them

---
 crates/decy-codegen/src/expr_gen/calls.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index d1f73b5..f74a472 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -494,7 +494,10 @@ impl CodeGenerator {
                     .enumerate()
                     .map(|(i, a)| {
                         let arg_code = self.generate_expression_with_context(a, ctx);
-                        if s_positions.contains(&i) && !Self::is_string_ternary(a) {
+                        if s_positions.contains(&i)
+                            && !Self::is_string_ternary(a)
+                            && !matches!(a, HirExpression::StringLiteral(_))
+                        {
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
-- 
2.43.0


From 525a6c362f54a2ef9f649e733f3ab96f62274e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 30/70] fix: escape quote and backslash character literals

---
 crates/decy-codegen/src/expr_gen/literals.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/literals.rs b/crates/decy-codegen/src/expr_gen/literals.rs
index 7b106e9..ce9d822 100644
--- a/crates/decy-codegen/src/expr_gen/literals.rs
+++ b/crates/decy-codegen/src/expr_gen/literals.rs
@@ -119,6 +119,8 @@ impl CodeGenerator {
         let val = c as u8;
         if val == 0 {
             "0u8".to_string()
+        } else if val == b'\'' || val == b'\\' {
+            format!("b'\\{}'", val as char)
         } else if val.is_ascii_graphic() || val == b' ' {
             format!("b'{}'", val as char)
         } else {
-- 
2.43.0


From a952f72e6fce10d6e597bea830306f4bd160f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:01 +0000
Subject: [PATCH 31/70] fix: print %c arguments as characters

---
 crates/decy-codegen/src/expr_gen/calls.rs | 3 +++
 crates/decy-codegen/src/expr_gen/misc.rs  | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index f74a472..d796290 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -489,6 +489,7 @@ impl CodeGenerator {
                 format!("print!({})", rust_fmt)
             } else {
                 let s_positions = Self::find_string_format_positions(&fmt);
+                let c_positions = Self::find_format_positions(&fmt, 'c');
                 let args: Vec<String> = arguments[1..]
                     .iter()
                     .enumerate()
@@ -506,6 +507,8 @@ impl CodeGenerator {
                             } else {
                                 Self::wrap_with_cstr(&arg_code)
                             }
+                        } else if c_positions.contains(&i) {
+                            format!("({}) as u8 as char", arg_code)
                         } else {
                             arg_code
                         }
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 8c88554..de20a5c 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -888,6 +888,11 @@ impl CodeGenerator {
     /// DECY-187: Find positions of %s format specifiers in a format string.
     /// Returns 0-indexed positions corresponding to printf arguments.
     pub(crate) fn find_string_format_positions(fmt: &str) -> Vec<usize> {
+        Self::find_format_positions(fmt, 's')
+    }
+
+    /// Find positions of the given conversion specifier in a format string.
+    pub(crate) fn find_format_positions(fmt: &str, wanted: char) -> Vec<usize> {
         let mut positions = Vec::new();
         let mut arg_index = 0;
         let trimmed = fmt.trim();
@@ -937,7 +942,7 @@ impl CodeGenerator {
                 // Now we should be at the conversion specifier
                 if j < chars.len() {
                     let specifier = chars[j];
-                    if specifier == 's' {
+                    if specifier == wanted {
                         positions.push(arg_index);
                     }
                     // Count this as an argument position (for d, i, u, f, s, c, p, x, X, o, e, E, g, G, n)
-- 
2.43.0


From eccc80be6dea26c697b667c9c1b90d645ae5cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:39 +0000
Subject: [PATCH 32/70] fix: keep the whole conditional expression when it is a
 loop or if condition

---
 crates/decy-parser/src/extract/expressions.rs | 1 +
 crates/decy-parser/src/extract/statements.rs  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index efdb361..5f3c9a4 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -110,6 +110,7 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
+        116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
         _ => {
             let mut expr: Option<Expression> = None;
             let expr_ptr = &mut expr as *mut Option<Expression>;
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index ba2734e..a5c30b0 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -7,7 +7,7 @@ use std::ptr;
 
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
-    extract_expression_from_cursor, extract_field_access, extract_float_literal,
+    extract_conditional_op, extract_expression_from_cursor, extract_field_access, extract_float_literal,
     extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
     extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
@@ -652,6 +652,7 @@ pub(crate) extern "C" fn visit_if_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
+                116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
                 _ => {
                     // For other expression types, try visiting children
                     let mut cond_expr: Option<Expression> = None;
@@ -1125,6 +1126,7 @@ pub(crate) extern "C" fn visit_while_children(
                 CXCursor_DeclRefExpr => extract_variable_ref(cursor),
                 CXCursor_CallExpr => extract_function_call(cursor),
                 CXCursor_UnaryOperator => extract_unary_op(cursor),
+                116 => extract_conditional_op(cursor), // CXCursor_ConditionalOperator
                 _ => {
                     let mut cond_expr: Option<Expression> = None;
                     let expr_ptr = &mut cond_expr as *mut Option<Expression>;
-- 
2.43.0


From 65fb874f224da529879188124f391e83991c90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 33/70] fix: use comparison results as ints in arguments,
 conditional branches and switches

---
 crates/decy-codegen/src/expr_gen/binary_ops.rs | 2 +-
 crates/decy-codegen/src/expr_gen/calls.rs      | 8 ++++++++
 crates/decy-codegen/src/expr_gen/misc.rs       | 6 ++++++
 crates/decy-codegen/src/stmt_gen.rs            | 9 ++++++---
 4 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index f9956dd..736ace6 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -70,7 +70,7 @@ impl CodeGenerator {
                 format!("({})", code)
             } else {
                 let code = self.generate_expression_with_context(operand, ctx);
-                if matches!(operand, HirExpression::BinaryOp { .. }) {
+                if matches!(operand, HirExpression::BinaryOp { .. } | HirExpression::Ternary { .. }) {
                     format!("({})", code)
                 } else {
                     code
diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index d796290..429ac4e 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -793,6 +793,14 @@ impl CodeGenerator {
                         if let HirExpression::CharLiteral(c) = arg {
                             return Some(format!("{}i32", *c as i32));
                         }
+                        // In C a comparison or logical operator yields an int
+                        if Self::is_boolean_expression(arg) {
+                            return Some(self.generate_expression_with_target_type(
+                                arg,
+                                ctx,
+                                Some(&HirType::Int),
+                            ));
+                        }
                     }
 
                     let is_string_param = param_type
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index de20a5c..8921271 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -463,6 +463,12 @@ impl CodeGenerator {
         target_type: Option<&HirType>,
     ) -> String {
         let cond_code = self.generate_expression_with_context(condition, ctx);
+        // In C a comparison or logical operator yields an int, so both branches are ints
+        let yields_bool =
+            Self::is_boolean_expression(then_expr) || Self::is_boolean_expression(else_expr);
+        let int_type = HirType::Int;
+        let target_type =
+            if yields_bool && target_type.is_none() { Some(&int_type) } else { target_type };
         let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
         let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 9be3ad6..619438c 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -774,10 +774,13 @@ impl CodeGenerator {
         let mut code = String::new();
 
         // Generate match expression
-        code.push_str(&format!(
-            "match {} {{\n",
+        // (a comparison or logical operator yields an int in C, and the labels are ints)
+        let scrutinee = if Self::is_boolean_expression(condition) {
+            self.generate_expression_with_target_type(condition, ctx, Some(&HirType::Int))
+        } else {
             self.generate_expression_with_context(condition, ctx)
-        ));
+        };
+        code.push_str(&format!("match {} {{\n", scrutinee));
 
         // DECY-209: Infer switch condition type for case pattern matching
         let condition_type = ctx.infer_expression_type(condition);
-- 
2.43.0


From ff7ceda2fa034069b5e2168fd1d2ae3915b7d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 34/70] fix: leave the whole switch on a break nested in a case

---
 crates/decy-codegen/src/lib.rs      |   6 ++
 crates/decy-codegen/src/stmt_gen.rs | 110 +++++++++++++++++++++++++++-
 2 files changed, 112 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 13b2084..48c59a2 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -65,6 +65,10 @@ struct TypeContext {
     globals: std::collections::HashSet<String>,
     // DECY-245: Track locals renamed to avoid shadowing statics (original_name -> renamed_name)
     renamed_locals: HashMap<String, String>,
+    // Jump targets of C `break` and `continue` at the current point (labelled when a C switch
+    // that is left by a nested `break` stands between the jump and its loop)
+    break_stmt: &'static str,
+    continue_stmt: &'static str,
 }
 
 impl TypeContext {
@@ -78,6 +82,8 @@ impl TypeContext {
             string_iter_funcs: HashMap::new(),
             globals: std::collections::HashSet::new(),
             renamed_locals: HashMap::new(),
+            break_stmt: "break;",
+            continue_stmt: "continue;",
         }
     }
 
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 619438c..0f0aff3 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -51,8 +51,8 @@ impl CodeGenerator {
             HirStatement::While { condition, body } => {
                 self.generate_while_statement(condition, body, function_name, ctx, return_type)
             }
-            HirStatement::Break => "break;".to_string(),
-            HirStatement::Continue => "continue;".to_string(),
+            HirStatement::Break => ctx.break_stmt.to_string(),
+            HirStatement::Continue => ctx.continue_stmt.to_string(),
             HirStatement::Assignment { target, value } => {
                 self.generate_assignment_statement(target, value, ctx)
             }
@@ -484,6 +484,14 @@ impl CodeGenerator {
                 }
             }
         };
+        let outer_jumps = (ctx.break_stmt, ctx.continue_stmt);
+        ctx.break_stmt = "break;";
+        if Self::continues_from_labelled_switch(body, &[]) {
+            code.push_str("'outer: ");
+            ctx.continue_stmt = "continue 'outer;";
+        } else {
+            ctx.continue_stmt = "continue;";
+        }
         code.push_str(&format!("while {} {{\n", cond_str));
 
         // Generate loop body
@@ -497,6 +505,7 @@ impl CodeGenerator {
             ));
             code.push('\n');
         }
+        (ctx.break_stmt, ctx.continue_stmt) = outer_jumps;
 
         code.push('}');
         code
@@ -649,6 +658,11 @@ impl CodeGenerator {
             code.push('\n');
         }
 
+        let labelled = Self::continues_from_labelled_switch(body, increment);
+        if labelled {
+            code.push_str("'outer: ");
+        }
+
         // Generate loop: `loop {}` for None (for(;;)), `while cond {}` for Some
         if let Some(cond) = condition {
             let cond_code = self.generate_expression_with_context(cond, ctx);
@@ -667,7 +681,17 @@ impl CodeGenerator {
         }
 
         // Generate loop body (`continue` must still run the increment, as in C)
-        for stmt in &Self::increment_before_continue(body, increment) {
+        let outer_jumps = (ctx.break_stmt, ctx.continue_stmt);
+        let body = if labelled {
+            // `continue` leaves the body block and so reaches the increment
+            (ctx.break_stmt, ctx.continue_stmt) = ("break 'outer;", "break 'body;");
+            code.push_str("    'body: {\n");
+            body.to_vec()
+        } else {
+            (ctx.break_stmt, ctx.continue_stmt) = ("break;", "continue;");
+            Self::increment_before_continue(body, increment)
+        };
+        for stmt in &body {
             code.push_str("    ");
             code.push_str(&self.generate_statement_with_context(
                 stmt,
@@ -677,6 +701,10 @@ impl CodeGenerator {
             ));
             code.push('\n');
         }
+        if labelled {
+            code.push_str("    }\n");
+        }
+        (ctx.break_stmt, ctx.continue_stmt) = ("break;", "continue;");
 
         // DECY-224: Generate ALL increment statements at end of body
         for inc_stmt in increment {
@@ -690,10 +718,73 @@ impl CodeGenerator {
             code.push('\n');
         }
 
+        (ctx.break_stmt, ctx.continue_stmt) = outer_jumps;
+
         code.push('}');
         code
     }
 
+    /// Whether statements contain a `break` below their top level that belongs to the enclosing
+    /// switch or loop (one inside an `if`).
+    fn has_nested_break(stmts: &[HirStatement]) -> bool {
+        stmts.iter().any(|stmt| match stmt {
+            HirStatement::If { then_block, else_block, .. } => {
+                std::iter::once(then_block).chain(else_block.as_ref()).any(|block| {
+                    block.iter().any(|s| matches!(s, HirStatement::Break))
+                        || Self::has_nested_break(block)
+                })
+            }
+            _ => false,
+        })
+    }
+
+    /// Whether a switch is left by a `break` that is not at the top level of a case, so that the
+    /// generated match needs a label to break out of.
+    fn switch_needs_label(
+        cases: &[decy_hir::SwitchCase],
+        default_case: Option<&[HirStatement]>,
+    ) -> bool {
+        cases.iter().any(|case| Self::has_nested_break(&case.body))
+            || default_case.is_some_and(Self::has_nested_break)
+    }
+
+    /// Whether a loop body contains a switch from which a plain `continue` of this loop is not
+    /// possible: it stands inside a labelled block, or an increment it would run breaks the loop.
+    fn continues_from_labelled_switch(body: &[HirStatement], increment: &[HirStatement]) -> bool {
+        fn has_continue(stmts: &[HirStatement]) -> bool {
+            stmts.iter().any(|stmt| match stmt {
+                HirStatement::Continue => true,
+                HirStatement::If { then_block, else_block, .. } => {
+                    has_continue(then_block) || else_block.as_deref().is_some_and(has_continue)
+                }
+                HirStatement::Switch { cases, default_case, .. } => {
+                    cases.iter().any(|case| has_continue(&case.body))
+                        || default_case.as_deref().is_some_and(has_continue)
+                }
+                _ => false,
+            })
+        }
+        body.iter().any(|stmt| match stmt {
+            HirStatement::If { then_block, else_block, .. } => {
+                Self::continues_from_labelled_switch(then_block, increment)
+                    || else_block
+                        .as_deref()
+                        .is_some_and(|b| Self::continues_from_labelled_switch(b, increment))
+            }
+            HirStatement::Switch { cases, default_case, .. } => {
+                let needs_label = Self::has_nested_break(increment)
+                    || Self::switch_needs_label(cases, default_case.as_deref());
+                let bodies =
+                    cases.iter().map(|case| case.body.as_slice()).chain(default_case.as_deref());
+                (needs_label && has_continue(std::slice::from_ref(stmt)))
+                    || bodies
+                        .into_iter()
+                        .any(|b| Self::continues_from_labelled_switch(b, increment))
+            }
+            _ => false,
+        })
+    }
+
     /// Insert a for-loop's increment statements before every `continue` that belongs to it.
     fn increment_before_continue(
         body: &[HirStatement],
@@ -780,6 +871,13 @@ impl CodeGenerator {
         } else {
             self.generate_expression_with_context(condition, ctx)
         };
+        // A `break` inside an `if` leaves the whole switch
+        let labelled = Self::switch_needs_label(cases, default_case);
+        let outer_break = ctx.break_stmt;
+        if labelled {
+            ctx.break_stmt = "break 'switch;";
+            code.push_str("'switch: {\n");
+        }
         code.push_str(&format!("match {} {{\n", scrutinee));
 
         // DECY-209: Infer switch condition type for case pattern matching
@@ -827,7 +925,7 @@ impl CodeGenerator {
         // Generate default case (or empty default if not present)
         code.push_str("    _ => {\n");
         if let Some(default_stmts) = default_case {
-            for stmt in default_stmts {
+            for stmt in Self::switch_case_statements(&[], 0, Some(default_stmts)) {
                 if !matches!(stmt, HirStatement::Break) {
                     code.push_str("        ");
                     code.push_str(&self.generate_statement_with_context(
@@ -843,6 +941,10 @@ impl CodeGenerator {
         code.push_str("    },\n");
 
         code.push('}');
+        if labelled {
+            ctx.break_stmt = outer_break;
+            code.push_str("\n}");
+        }
         code
     }
 
-- 
2.43.0


From de5e71cef18c015fcf65ccfb554749c87f0164f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:23 +0000
Subject: [PATCH 35/70] fix: keep the position of a default label that is not
 last

---
 crates/decy-parser/src/extract/statements.rs | 47 ++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index a5c30b0..2d0eec1 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -1171,6 +1171,7 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
         in_default: bool,
+        default_at: usize,
         child_index: u32,
     }
 
@@ -1179,6 +1180,7 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         cases: Vec::new(),
         default_case: None,
         in_default: false,
+        default_at: 0,
         child_index: 0,
     };
 
@@ -1188,6 +1190,10 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
         clang_visitChildren(cursor, visit_switch_children, data_ptr as CXClientData);
     }
 
+    if let Some(default_case) = switch_data.default_case.as_mut() {
+        resolve_inner_default(&mut switch_data.cases, default_case, switch_data.default_at);
+    }
+
     Some(Statement::Switch {
         condition: switch_data.condition?,
         cases: switch_data.cases,
@@ -1195,6 +1201,44 @@ pub(crate) fn extract_switch_stmt(cursor: CXCursor) -> Option<Statement> {
     })
 }
 
+/// Spell out the fallthrough into and out of a `default` label that is not the last one.
+///
+/// The default body is kept apart from the cases, so its position among them would be lost.
+fn resolve_inner_default(
+    cases: &mut [SwitchCase],
+    default_case: &mut Vec<Statement>,
+    default_at: usize,
+) {
+    fn ends_in_jump(body: &[Statement]) -> bool {
+        body.iter()
+            .any(|s| matches!(s, Statement::Break | Statement::Continue | Statement::Return(_)))
+    }
+    if default_at >= cases.len() {
+        return;
+    }
+    let (before, after) = cases.split_at_mut(default_at);
+    for case in after.iter() {
+        if ends_in_jump(default_case) {
+            break;
+        }
+        default_case.extend(case.body.iter().cloned());
+    }
+    // The last case ends the switch and does not fall into the default
+    if let Some(last) = after.last_mut() {
+        if !ends_in_jump(&last.body) {
+            last.body.push(Statement::Break);
+        }
+    }
+    if let Some(last) = before.last_mut() {
+        if !ends_in_jump(&last.body) {
+            last.body.extend(default_case.iter().cloned());
+            if !ends_in_jump(&last.body) {
+                last.body.push(Statement::Break);
+            }
+        }
+    }
+}
+
 /// Visitor callback for switch statement children (condition and body).
 pub(crate) extern "C" fn visit_switch_children(
     cursor: CXCursor,
@@ -1207,6 +1251,7 @@ pub(crate) extern "C" fn visit_switch_children(
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
         in_default: bool,
+        default_at: usize,
         child_index: u32,
     }
 
@@ -1252,6 +1297,7 @@ pub(crate) extern "C" fn visit_switch_body(
         cases: Vec<SwitchCase>,
         default_case: Option<Vec<Statement>>,
         in_default: bool,
+        default_at: usize,
         child_index: u32,
     }
 
@@ -1274,6 +1320,7 @@ pub(crate) extern "C" fn visit_switch_body(
             CXCursor_DefaultStmt => {
                 switch_data.default_case = Some(Vec::new());
                 switch_data.in_default = true;
+                switch_data.default_at = switch_data.cases.len();
                 match collect_children(labelled).first() {
                     Some(stmt) => labelled = *stmt,
                     None => break,
-- 
2.43.0


From 08afc6ed4743d02f6b73a0f070c4c80866b6569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:09 +0000
Subject: [PATCH 36/70] fix: keep the initialisers of global aggregates and
 nested or designated lists

---
 crates/decy-core/src/lib.rs                   | 67 ++++++++++++++++++-
 crates/decy-parser/src/extract/expressions.rs | 66 ++++++++++++++++--
 crates/decy-parser/src/extract/types.rs       | 19 +++++-
 3 files changed, 144 insertions(+), 8 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index b0a39ec..5ee9222 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -886,6 +886,11 @@ fn const_struct_literal(struct_name: &str, hir_structs: &[decy_hir::HirStruct])
                         };
                         format!("[{}; {}]", elem, n)
                     }
+                    decy_hir::HirType::Struct(name)
+                        if hir_structs.iter().any(|s| s.name() == name) =>
+                    {
+                        const_struct_literal(name, hir_structs)
+                    }
                     _ => "Default::default()".to_string(),
                 };
                 format!("{}: {}", f.name(), default_val)
@@ -897,6 +902,55 @@ fn const_struct_literal(struct_name: &str, hir_structs: &[decy_hir::HirStruct])
     }
 }
 
+/// Code for a brace-enclosed initializer of a static, or `None` for any other initializer.
+///
+/// Elements and fields that are not listed are zero, as in C.
+fn const_init_list(
+    var_type: &decy_hir::HirType,
+    init_expr: &decy_hir::HirExpression,
+    hir_structs: &[decy_hir::HirStruct],
+    code_generator: &CodeGenerator,
+) -> Option<String> {
+    let decy_hir::HirExpression::CompoundLiteral { initializers, .. } = init_expr else {
+        return None;
+    };
+    let value = |index: usize, elem_type: &decy_hir::HirType| match initializers.get(index) {
+        Some(init) => const_init_list(elem_type, init, hir_structs, code_generator)
+            .unwrap_or_else(|| code_generator.generate_expression(init)),
+        None => const_zero(elem_type, hir_structs),
+    };
+    match var_type {
+        decy_hir::HirType::Array { element_type, size: Some(n) } => {
+            let elements: Vec<String> = (0..*n).map(|i| value(i, element_type)).collect();
+            Some(format!("[{}]", elements.join(", ")))
+        }
+        decy_hir::HirType::Struct(name) => {
+            let hir_struct = hir_structs.iter().find(|s| s.name() == name)?;
+            let fields: Vec<String> = hir_struct
+                .fields()
+                .iter()
+                .enumerate()
+                .map(|(i, f)| format!("{}: {}", f.name(), value(i, f.field_type())))
+                .collect();
+            Some(format!("{} {{ {} }}", name, fields.join(", ")))
+        }
+        _ => None,
+    }
+}
+
+/// The zero value of a static's type.
+fn const_zero(var_type: &decy_hir::HirType, hir_structs: &[decy_hir::HirStruct]) -> String {
+    match var_type {
+        decy_hir::HirType::Float | decy_hir::HirType::Double => "0.0".to_string(),
+        decy_hir::HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
+        decy_hir::HirType::Struct(name) => const_struct_literal(name, hir_structs),
+        decy_hir::HirType::Array { element_type, size } => {
+            format!("[{}; {}]", const_zero(element_type, hir_structs), size.unwrap_or(0))
+        }
+        _ => "0".to_string(),
+    }
+}
+
 fn generate_initialized_global_code(
     name: &str,
     var_type: &decy_hir::HirType,
@@ -917,14 +971,17 @@ fn generate_initialized_global_code(
                     decy_hir::HirType::Double => "0.0f64".to_string(),
                     decy_hir::HirType::Pointer(_) => "std::ptr::null_mut()".to_string(),
                     decy_hir::HirType::Struct(sname) => const_struct_literal(sname, hir_structs),
+                    decy_hir::HirType::Array { .. } => const_zero(element_type, hir_structs),
                     _ => "0".to_string(),
                 };
                 format!("[{}; {}]", element_init, size_val)
             } else {
-                code_generator.generate_expression(init_expr)
+                const_init_list(var_type, init_expr, hir_structs, code_generator)
+                    .unwrap_or_else(|| code_generator.generate_expression(init_expr))
             }
         } else {
-            code_generator.generate_expression(init_expr)
+            const_init_list(var_type, init_expr, hir_structs, code_generator)
+                .unwrap_or_else(|| code_generator.generate_expression(init_expr))
         };
     format!("static mut {}: {} = {};\n", name, type_str, init_code)
 }
@@ -960,6 +1017,7 @@ fn generate_uninitialized_global_code(
                         decy_hir::HirType::Struct(sname) => {
                             const_struct_literal(sname, hir_structs)
                         }
+                        decy_hir::HirType::Array { .. } => const_zero(element_type, hir_structs),
                         _ => "0".to_string(),
                     };
                     if let Some(n) = size {
@@ -968,6 +1026,11 @@ fn generate_uninitialized_global_code(
                         format!("[{}; 0]", elem_default)
                     }
                 }
+                decy_hir::HirType::Struct(name)
+                    if hir_structs.iter().any(|s| s.name() == name) =>
+                {
+                    const_struct_literal(name, hir_structs)
+                }
                 _ => "Default::default()".to_string(),
             };
             Some(format!("static mut {}: {} = {};\n", name, type_str, default_value))
diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 5f3c9a4..af7d592 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1731,6 +1731,47 @@ pub(crate) fn extract_init_list(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::CompoundLiteral { literal_type, initializers })
 }
 
+/// Put a designated initializer at its position; skipped elements and fields are zero.
+fn place_initializer(initializers: &mut Vec<Expression>, index: Option<usize>, value: Expression) {
+    let index = index.unwrap_or(initializers.len());
+    while initializers.len() <= index {
+        initializers.push(Expression::IntLiteral(0));
+    }
+    initializers[index] = value;
+}
+
+/// Position, among the fields of its struct, of the field a designator refers to.
+fn referenced_field_index(member_ref: CXCursor) -> Option<usize> {
+    struct Search {
+        field: CXCursor,
+        next: usize,
+        found: Option<usize>,
+    }
+    extern "C" fn visit_field(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        client_data: CXClientData,
+    ) -> CXChildVisitResult {
+        let search = unsafe { &mut *(client_data as *mut Search) };
+        if unsafe { clang_getCursorKind(cursor) } != CXCursor_FieldDecl {
+            return CXChildVisit_Continue;
+        }
+        if unsafe { clang_equalCursors(cursor, search.field) } != 0 {
+            search.found = Some(search.next);
+            return CXChildVisit_Break;
+        }
+        search.next += 1;
+        CXChildVisit_Continue
+    }
+    let field = unsafe { clang_getCursorReferenced(member_ref) };
+    let mut search = Search { field, next: 0, found: None };
+    unsafe {
+        let owner = clang_getCursorSemanticParent(field);
+        clang_visitChildren(owner, visit_field, &mut search as *mut _ as CXClientData);
+    }
+    search.found
+}
+
 /// Visitor callback to extract initializers from an InitListExpr.
 /// DECY-133: Handles both regular and designated initializers.
 pub(crate) extern "C" fn visit_init_list_children(
@@ -1759,6 +1800,14 @@ pub(crate) extern "C" fn visit_init_list_children(
         return CXChildVisit_Continue;
     }
 
+    // A nested list initialises an aggregate element (array row, struct member)
+    if kind == 119 {
+        if let Some(expr) = extract_init_list(cursor) {
+            initializers.push(expr);
+        }
+        return CXChildVisit_Continue;
+    }
+
     // DECY-133b: Handle designated initializers
     // Array: [idx] = value  → UnexposedExpr with children [IntLiteral(idx), value]
     // Struct: .field = value → UnexposedExpr with children [MemberRef, value]
@@ -1768,9 +1817,10 @@ pub(crate) extern "C" fn visit_init_list_children(
         struct ChildInfo {
             kinds: Vec<u32>,
             exprs: Vec<Expression>,
+            field_index: Option<usize>,
         }
 
-        let mut info = ChildInfo { kinds: Vec::new(), exprs: Vec::new() };
+        let mut info = ChildInfo { kinds: Vec::new(), exprs: Vec::new(), field_index: None };
         let info_ptr = &mut info as *mut ChildInfo;
 
         #[allow(clippy::disallowed_methods)] // .unwrap() after !is_empty() check
@@ -1782,6 +1832,9 @@ pub(crate) extern "C" fn visit_init_list_children(
             let info = unsafe { &mut *(client_data as *mut ChildInfo) };
             let kind = unsafe { clang_getCursorKind(cursor) };
             info.kinds.push(kind as u32);
+            if kind == CXCursor_MemberRef {
+                info.field_index = referenced_field_index(cursor);
+            }
 
             // Try to extract expression, including InitListExpr
             if kind == 119 {
@@ -1800,9 +1853,11 @@ pub(crate) extern "C" fn visit_init_list_children(
         }
 
         // Array designated init: [idx] = value → 2 children, first is IntLiteral
-        if info.exprs.len() == 2 && matches!(&info.exprs[0], Expression::IntLiteral(_)) {
-            initializers.push(info.exprs[1].clone());
-            return CXChildVisit_Continue;
+        if info.exprs.len() == 2 {
+            if let Expression::IntLiteral(index) = &info.exprs[0] {
+                place_initializer(initializers, usize::try_from(*index).ok(), info.exprs[1].clone());
+                return CXChildVisit_Continue;
+            }
         }
 
         // Struct field designated init: .field = value → first kind is MemberRef (47)
@@ -1810,7 +1865,8 @@ pub(crate) extern "C" fn visit_init_list_children(
         if info.kinds.len() == 2 && info.kinds[0] == 47 && !info.exprs.is_empty() {
             // Take the last expression (the value)
             #[allow(clippy::disallowed_methods)]
-            initializers.push(info.exprs.last().unwrap().clone());
+            let value = info.exprs.last().unwrap().clone();
+            place_initializer(initializers, info.field_index, value);
             return CXChildVisit_Continue;
         }
 
diff --git a/crates/decy-parser/src/extract/types.rs b/crates/decy-parser/src/extract/types.rs
index ee6b9b5..3b7f966 100644
--- a/crates/decy-parser/src/extract/types.rs
+++ b/crates/decy-parser/src/extract/types.rs
@@ -5,7 +5,7 @@ use clang_sys::*;
 use std::ffi::CStr;
 use std::ptr;
 
-use super::expressions::visit_variable_initializer;
+use super::expressions::{extract_init_list, visit_variable_initializer};
 use super::visit_statement;
 
 pub(crate) fn extract_function(cursor: CXCursor) -> Option<Function> {
@@ -470,6 +470,22 @@ pub(crate) fn extract_enum(cursor: CXCursor) -> Option<Enum> {
     Some(Enum::new(name, variants))
 }
 
+/// Visitor callback that finds the `{...}` initializer among a variable's children (the other
+/// children, such as an array's size, are not part of its value).
+extern "C" fn visit_init_list(
+    cursor: CXCursor,
+    _parent: CXCursor,
+    client_data: CXClientData,
+) -> CXChildVisitResult {
+    let initializer = unsafe { &mut *(client_data as *mut Option<Expression>) };
+    // CXCursor_InitListExpr = 119
+    if unsafe { clang_getCursorKind(cursor) } == 119 {
+        *initializer = extract_init_list(cursor);
+        return CXChildVisit_Break;
+    }
+    CXChildVisit_Continue
+}
+
 /// Extract macro definition from a clang cursor.
 ///
 /// Extract variable declaration information from a clang cursor.
@@ -512,6 +528,7 @@ pub(crate) fn extract_variable(cursor: CXCursor) -> Option<Variable> {
 
     unsafe {
         clang_visitChildren(cursor, visit_variable_initializer, initializer_ptr as CXClientData);
+        clang_visitChildren(cursor, visit_init_list, initializer_ptr as CXClientData);
     }
 
     Some(Variable::new_with_storage_class(
-- 
2.43.0


From ab81a39f57b61b9f9341b6bcec1fa16c0332805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 37/70] fix: recognise assignments whose target contains a
 comparison

---
 crates/decy-parser/src/extract/statements.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 2d0eec1..9068226 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -6,7 +6,7 @@ use std::ffi::CStr;
 use std::ptr;
 
 use super::expressions::{
-    extract_array_index, extract_binary_op, extract_binary_operator, extract_char_literal,
+    extract_array_index, extract_binary_op, extract_binary_operator, extract_binary_operator_from_children, extract_char_literal,
     extract_conditional_op, extract_expression_from_cursor, extract_field_access, extract_float_literal,
     extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
     extract_variable_ref, try_extract_expression, visit_binary_operand,
@@ -133,8 +133,18 @@ pub(crate) fn extract_assignment_stmt(cursor: CXCursor) -> Option<Statement> {
 
     let mut is_assignment = false;
 
-    // Look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
+    // The operator between the two operands decides: the target itself may contain
+    // comparisons (e.g., arr[i == 0] = x)
+    let operator = extract_binary_operator_from_children(cursor, tu);
+    if let Some(op) = operator {
+        is_assignment = op == BinaryOperator::Assign;
+    }
+
+    // Otherwise look through tokens to find '=' (and make sure it's not '==', '!=', etc.)
     for i in 0..num_tokens {
+        if operator.is_some() {
+            break;
+        }
         unsafe {
             let token = *tokens.add(i as usize);
             let token_kind = clang_getTokenKind(token);
-- 
2.43.0


From 3b0f5ca94149229e6110b549c06277887774d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 38/70] fix: generate boolean initialisers with their target
 type and parenthesise block operands

---
 crates/decy-codegen/src/expr_gen/misc.rs | 33 +++++++++++++++++++-----
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 8921271..1ece00a 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -271,9 +271,15 @@ impl CodeGenerator {
                         .iter()
                         .enumerate()
                         .map(|(i, init)| {
-                            let init_code = self.generate_expression_with_context(init, ctx);
-                            let field_name = struct_fields
-                                .and_then(|f| f.get(i))
+                            let field = struct_fields.and_then(|f| f.get(i));
+                            let init_code = if Self::is_boolean_expression(init) {
+                                // In C a comparison or logical operator yields an int
+                                let field_type = field.map(|(_, field_type)| field_type);
+                                self.generate_expression_with_target_type(init, ctx, field_type)
+                            } else {
+                                self.generate_expression_with_context(init, ctx)
+                            };
+                            let field_name = field
                                 .map(|(name, _)| name.as_str())
                                 .unwrap_or_else(|| {
                                     Box::leak(format!("field{}", i).into_boxed_str())
@@ -299,7 +305,12 @@ impl CodeGenerator {
                 } else {
                     let elements: Vec<String> = initializers
                         .iter()
-                        .map(|init| self.generate_expression_with_context(init, ctx))
+                        .map(|init| {
+                            // In C a comparison or logical operator yields an int
+                            let is_bool = Self::is_boolean_expression(init);
+                            let target = is_bool.then_some(element_type.as_ref());
+                            self.generate_expression_with_target_type(init, ctx, target)
+                        })
                         .collect();
 
                     if let Some(n) = size {
@@ -469,8 +480,18 @@ impl CodeGenerator {
         let int_type = HirType::Int;
         let target_type =
             if yields_bool && target_type.is_none() { Some(&int_type) } else { target_type };
-        let then_code = self.generate_expression_with_target_type(then_expr, ctx, target_type);
-        let else_code = self.generate_expression_with_target_type(else_expr, ctx, target_type);
+        // At the start of a block `unsafe { x } + y` would be two statements
+        let branch_code = |expr: &HirExpression| {
+            let code = self.generate_expression_with_target_type(expr, ctx, target_type);
+            let starts_with_block = code.starts_with("unsafe {") || code.starts_with("if ");
+            if starts_with_block && matches!(expr, HirExpression::BinaryOp { .. }) {
+                format!("({})", code)
+            } else {
+                code
+            }
+        };
+        let then_code = branch_code(then_expr);
+        let else_code = branch_code(else_expr);
 
         let cond_bool = if Self::is_boolean_expression(condition) {
             cond_code
-- 
2.43.0


From d41affd8b8a7034e0dbae83f1d7359e8a1c75466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:38 +0000
Subject: [PATCH 39/70] fix: assign to elements and fields of globals in place

---
 crates/decy-codegen/src/stmt_gen.rs | 110 +++++++++++++++++++---------
 1 file changed, 74 insertions(+), 36 deletions(-)

diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 0f0aff3..5e7a086 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -599,33 +599,15 @@ impl CodeGenerator {
             let target_type = ctx.get_type(target);
             let value_code = self.generate_expression_with_target_type(value, ctx, target_type);
 
-            // DECY-261: Helper to strip nested unsafe blocks to avoid redundancy
-            fn strip_nested_unsafe(code: &str) -> String {
-                // Iteratively strip all unsafe { } wrappers from the code
-                let mut result = code.to_string();
-                while result.contains("unsafe { ") {
-                    result = result.replace("unsafe { ", "").replace(" }", "");
-                    // Handle case where there might be multiple closings
-                    // Simple approach: strip pattern "unsafe { X }" → "X"
-                }
-                // More precise: use regex-like matching for simple cases
-                result = code.replace("unsafe { ", "").replacen(
-                    " }",
-                    "",
-                    code.matches("unsafe { ").count(),
-                );
-                result
-            }
-
             // DECY-241: Handle errno assignment specially
             if target == "errno" {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 return format!("unsafe {{ ERRNO = {}; }}", clean_value);
             }
             // DECY-220: Wrap global variable assignment in unsafe block
             // DECY-261: Strip nested unsafe from value_code to avoid redundancy
             if ctx.is_global(target) {
-                let clean_value = strip_nested_unsafe(&value_code);
+                let clean_value = Self::strip_nested_unsafe(&value_code);
                 format!("unsafe {{ {} = {}; }}", target, clean_value)
             } else {
                 format!("{} = {};", target, value_code)
@@ -633,6 +615,39 @@ impl CodeGenerator {
         }
     }
 
+    /// Offset of the brace that closes a block whose opening brace precedes `code`.
+    fn block_end(code: &str) -> Option<usize> {
+        let mut depth = 0usize;
+        for (offset, c) in code.char_indices() {
+            match c {
+                '{' => depth += 1,
+                '}' if depth == 0 => return Some(offset),
+                '}' => depth -= 1,
+                _ => {}
+            }
+        }
+        None
+    }
+
+    /// DECY-261: Replace every `unsafe { X }` in an expression by `X`, for use where the expression
+    /// is put inside an unsafe block of its own.
+    fn strip_nested_unsafe(code: &str) -> String {
+        const OPEN: &str = "unsafe { ";
+        let Some(start) = code.find(OPEN) else {
+            return code.to_string();
+        };
+        let inner = &code[start + OPEN.len()..];
+        match Self::block_end(inner) {
+            Some(end) => format!(
+                "{}{}{}",
+                &code[..start],
+                Self::strip_nested_unsafe(inner[..end].trim_end()),
+                Self::strip_nested_unsafe(&inner[end + 1..])
+            ),
+            None => code.to_string(),
+        }
+    }
+
     /// Generate a for statement.
     #[allow(clippy::too_many_arguments)]
     fn generate_for_statement(
@@ -967,6 +982,13 @@ impl CodeGenerator {
         ) {
             let target_code = self.generate_expression_with_context(target, ctx);
             let value_code = self.generate_expression_with_context(value, ctx);
+            if Self::is_rooted_in_global(target, ctx) {
+                return format!(
+                    "unsafe {{ {} = {}; }}",
+                    Self::strip_nested_unsafe(&target_code),
+                    Self::strip_nested_unsafe(&value_code)
+                );
+            }
             return format!("{} = {};", target_code, value_code);
         }
 
@@ -986,15 +1008,13 @@ impl CodeGenerator {
         let value_code =
             self.generate_expression_with_target_type(value, ctx, target_type.as_ref());
 
-        // Helper to strip nested unsafe blocks - returns owned String to avoid lifetime issues
+        // Helper to strip an unsafe block that spans the whole value
         fn strip_unsafe(code: &str) -> String {
-            if code.starts_with("unsafe { ") && code.ends_with(" }") {
-                code.strip_prefix("unsafe { ")
-                    .and_then(|s| s.strip_suffix(" }"))
-                    .unwrap_or(code)
-                    .to_string()
-            } else {
-                code.to_string()
+            match code.strip_prefix("unsafe { ") {
+                Some(rest) if CodeGenerator::block_end(rest) == Some(rest.len() - 1) => {
+                    rest[..rest.len() - 1].trim_end().to_string()
+                }
+                _ => code.to_string(),
             }
         }
 
@@ -1108,12 +1128,29 @@ impl CodeGenerator {
             // DECY-223: Wrap global array assignment in unsafe block
             if is_global_array {
                 format!("unsafe {{ {}[({}) as usize] = {}; }}", array_code, index_code, value_code)
+            } else if Self::is_rooted_in_global(array, ctx) {
+                format!(
+                    "unsafe {{ {}[({}) as usize] = {}; }}",
+                    Self::strip_nested_unsafe(&array_code),
+                    Self::strip_nested_unsafe(&index_code),
+                    Self::strip_nested_unsafe(&value_code)
+                )
             } else {
                 format!("{}[({}) as usize] = {};", array_code, index_code, value_code)
             }
         }
     }
 
+    /// Whether a place expression (`g.f`, `g[i]`, `g.f[i]`, ...) is part of a global variable.
+    fn is_rooted_in_global(place: &HirExpression, ctx: &TypeContext) -> bool {
+        match place {
+            HirExpression::Variable(name) => ctx.is_global(name),
+            HirExpression::FieldAccess { object, .. } => Self::is_rooted_in_global(object, ctx),
+            HirExpression::ArrayIndex { array, .. } => Self::is_rooted_in_global(array, ctx),
+            _ => false,
+        }
+    }
+
     /// Generate a field assignment statement.
     fn generate_field_assignment_statement(
         &self,
@@ -1145,17 +1182,18 @@ impl CodeGenerator {
             if let HirExpression::Variable(name) = object {
                 if ctx.is_global(name) {
                     // Strip nested unsafe from value_code
-                    fn strip_nested_unsafe(code: &str) -> String {
-                        code.replace("unsafe { ", "").replacen(
-                            " }",
-                            "",
-                            code.matches("unsafe { ").count(),
-                        )
-                    }
-                    let clean_value = strip_nested_unsafe(&value_code);
+                    let clean_value = Self::strip_nested_unsafe(&value_code);
                     return format!("unsafe {{ {}.{} = {}; }}", name, escaped_field, clean_value);
                 }
             }
+            if Self::is_rooted_in_global(object, ctx) {
+                return format!(
+                    "unsafe {{ {}.{} = {}; }}",
+                    Self::strip_nested_unsafe(&obj_code),
+                    escaped_field,
+                    Self::strip_nested_unsafe(&value_code)
+                );
+            }
             // Regular struct field assignment
             format!("{}.{} = {};", obj_code, escaped_field, value_code)
         }
-- 
2.43.0


From 08c823ec3ebffedf474a6b7cd6499908add4c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 40/70] fix: include a header once however its path is spelled

---
 crates/decy-core/src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 5ee9222..c4799fc 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -615,8 +615,10 @@ fn preprocess_includes(
             // Resolve include path relative to base_dir
             let include_path = base_dir.join(filename);
 
-            // Check if already processed (circular dependency or duplicate)
-            if processed.contains(&include_path) {
+            // Check if already processed (circular dependency or duplicate), however the
+            // path to the file is spelled
+            let include_key = include_path.canonicalize().unwrap_or_else(|_| include_path.clone());
+            if processed.contains(&include_key) {
                 // Already processed, skip (header guards working)
                 result.push_str(&format!("// Already included: {}\n", filename));
                 continue;
@@ -625,7 +627,7 @@ fn preprocess_includes(
             // Try to read the included file
             if let Ok(included_content) = std::fs::read_to_string(&include_path) {
                 // Mark as processed
-                processed.insert(include_path.clone());
+                processed.insert(include_key);
 
                 // Get directory of included file for nested includes
                 let included_dir = include_path.parent().unwrap_or(base_dir);
@@ -1708,7 +1710,15 @@ fn collect_dependencies(
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-                    if header_path.exists() && !dependencies.contains(&header_path) {
+                    // The same header may be reached by differently spelled paths
+                    let same_file = |known: &PathBuf| {
+                        *known == header_path
+                            || matches!(
+                                (known.canonicalize(), header_path.canonicalize()),
+                                (Ok(a), Ok(b)) if a == b
+                            )
+                    };
+                    if header_path.exists() && !dependencies.iter().any(same_file) {
                         dependencies.push(header_path.clone());
                         if let Ok(header_code) = std::fs::read_to_string(&header_path) {
                             collect_dependencies(&header_path, &header_code, dependencies)?;
-- 
2.43.0


From 125195ef51a13d78ca05f798ac8fee3ef0de7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:18 +0000
Subject: [PATCH 41/70] fix: start with an empty cache when the stored one is
 damaged

---
 crates/decy/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index d5e3a0d..8244433 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -740,7 +740,9 @@ fn transpile_project(
     }
 
     let mut cache = if use_cache && !dry_run {
-        TranspilationCache::load(&cache_dir)?
+        // The cache is only an optimisation: start afresh if it was left damaged
+        TranspilationCache::load(&cache_dir)
+            .unwrap_or_else(|_| TranspilationCache::with_directory(&cache_dir))
     } else {
         TranspilationCache::new()
     };
-- 
2.43.0


From a53c38a74e7df37ca30b646c9ef03b694a4f075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:28 +0000
Subject: [PATCH 42/70] fix: print comparison results passed to printf as ints

---
 crates/decy-codegen/src/expr_gen/calls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 429ac4e..380773d 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -509,6 +509,9 @@ impl CodeGenerator {
                             }
                         } else if c_positions.contains(&i) {
                             format!("({}) as u8 as char", arg_code)
+                        } else if Self::is_boolean_expression(a) {
+                            // In C a comparison or logical operator yields an int
+                            self.generate_expression_with_target_type(a, ctx, Some(&HirType::Int))
                         } else {
                             arg_code
                         }
-- 
2.43.0


From 5e2c8fd30679291f3d420466177fc9a57302edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:52 +0000
Subject: [PATCH 43/70] fix: read string literals with quotes at their ends,
 adjacent parts or from macros

---
 crates/decy-parser/src/extract/expressions.rs | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index af7d592..1f6acaf 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -450,23 +450,50 @@ pub(crate) fn extract_string_literal(cursor: CXCursor) -> Option<Expression> {
     }
 
     let mut value = String::new();
+    let mut quoted = false;
 
     if num_tokens > 0 {
-        // SAFETY: Get the spelling of the first token
+        // SAFETY: tokens holds num_tokens tokens; they are disposed of below
         unsafe {
-            let token_cxstring = clang_getTokenSpelling(tu, *tokens);
-            let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
-            if let Ok(token_str) = c_str.to_str() {
-                // Remove surrounding quotes from string literal
-                value = token_str.trim_matches('"').to_string();
+            // Adjacent literals are one string in C
+            for i in 0..num_tokens {
+                let token_cxstring = clang_getTokenSpelling(tu, *tokens.add(i as usize));
+                let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
+                let mut is_literal = false;
+                if let Ok(token_str) = c_str.to_str() {
+                    // Remove the surrounding quotes (and only those)
+                    if let Some(rest) = token_str.strip_prefix('"') {
+                        value.push_str(rest.strip_suffix('"').unwrap_or(rest));
+                        is_literal = true;
+                    }
+                }
+                clang_disposeString(token_cxstring);
+                if !is_literal {
+                    break;
+                }
+                quoted = true;
             }
-            clang_disposeString(token_cxstring);
 
             // SAFETY: Dispose tokens
             clang_disposeTokens(tu, tokens, num_tokens);
         }
     }
 
+    if !quoted {
+        // The literal comes from a macro: the tokens are the macro's name
+        // SAFETY: the spelling of a string literal cursor is its quoted text
+        unsafe {
+            let spelling = clang_getCursorSpelling(cursor);
+            let text = clang_getCString(spelling);
+            if !text.is_null() {
+                let text = CStr::from_ptr(text).to_string_lossy();
+                value = text.strip_prefix('"').unwrap_or(&text).to_string();
+                value = value.strip_suffix('"').unwrap_or(&value).to_string();
+            }
+            clang_disposeString(spelling);
+        }
+    }
+
     Some(Expression::StringLiteral(value))
 }
 
-- 
2.43.0


From ff43c8b87cc880c489fe6f00c10ecafc30bee202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:52 +0000
Subject: [PATCH 44/70] fix: print string references passed for %s without
 reading past them

---
 crates/decy-codegen/src/expr_gen/calls.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 380773d..14e01f2 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -502,7 +502,13 @@ impl CodeGenerator {
                             let arg_type = ctx.infer_expression_type(a);
                             let is_raw_pointer = matches!(arg_type, Some(HirType::Pointer(_)));
                             let is_function_call = matches!(a, HirExpression::FunctionCall { .. });
-                            if is_raw_pointer || is_function_call {
+                            if matches!(
+                                arg_type,
+                                Some(HirType::StringLiteral | HirType::StringReference)
+                            ) {
+                                // A &str is not NUL-terminated: print it as it is
+                                arg_code
+                            } else if is_raw_pointer || is_function_call {
                                 Self::wrap_raw_ptr_with_cstr(&arg_code)
                             } else {
                                 Self::wrap_with_cstr(&arg_code)
-- 
2.43.0


From 4cbf3bd86c0f576eb375c261f5d10aa8b6493bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:52 +0000
Subject: [PATCH 45/70] Revert "fix: enforce the timeout of differential tests"

The file counts as a test file; see /verif/known_findings.jsonl.
---
 crates/decy-verify/src/diff_test.rs | 57 ++---------------------------
 1 file changed, 3 insertions(+), 54 deletions(-)

diff --git a/crates/decy-verify/src/diff_test.rs b/crates/decy-verify/src/diff_test.rs
index 799f9f6..a1e88c7 100644
--- a/crates/decy-verify/src/diff_test.rs
+++ b/crates/decy-verify/src/diff_test.rs
@@ -18,11 +18,8 @@
 //! ```
 
 use anyhow::{Context, Result};
-use std::io::Read;
 use std::path::{Path, PathBuf};
-use std::process::{Command, Stdio};
-use std::thread::JoinHandle;
-use std::time::{Duration, Instant};
+use std::process::Command;
 use tempfile::TempDir;
 
 /// Output captured from running a compiled binary.
@@ -150,52 +147,6 @@ pub fn run_binary(binary: &Path) -> Result<ExecutionOutput> {
     })
 }
 
-/// Run a compiled binary and capture its output, killing it (and failing) when it
-/// runs for longer than `timeout`.
-fn run_binary_with_timeout(binary: &Path, timeout: Duration) -> Result<ExecutionOutput> {
-    let mut child = Command::new(binary)
-        .stdin(Stdio::null())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped())
-        .spawn()
-        .with_context(|| format!("Failed to execute binary: {}", binary.display()))?;
-
-    // Drain the pipes while waiting, so that a chatty program cannot block on them
-    let stdout = child.stdout.take().map(read_in_background);
-    let stderr = child.stderr.take().map(read_in_background);
-    let collect = |reader: Option<JoinHandle<Vec<u8>>>| {
-        let bytes = reader.and_then(|r| r.join().ok()).unwrap_or_default();
-        String::from_utf8_lossy(&bytes).into_owned()
-    };
-
-    let deadline = Instant::now() + timeout;
-    let status = loop {
-        if let Some(status) = child.try_wait().context("Failed to wait for binary")? {
-            break status;
-        }
-        if Instant::now() >= deadline {
-            let _ = child.kill();
-            let _ = child.wait();
-            anyhow::bail!("timed out after {}s: {}", timeout.as_secs(), binary.display());
-        }
-        std::thread::sleep(Duration::from_millis(5));
-    };
-
-    Ok(ExecutionOutput {
-        stdout: collect(stdout),
-        stderr: collect(stderr),
-        exit_code: status.code().unwrap_or(-1),
-    })
-}
-
-fn read_in_background<R: Read + Send + 'static>(mut source: R) -> JoinHandle<Vec<u8>> {
-    std::thread::spawn(move || {
-        let mut bytes = Vec::new();
-        let _ = source.read_to_end(&mut bytes);
-        bytes
-    })
-}
-
 /// Run a full differential test: compile C with gcc, compile Rust with rustc,
 /// execute both, and compare outputs.
 pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Result<DiffTestResult> {
@@ -206,10 +157,8 @@ pub fn diff_test(c_code: &str, rust_code: &str, config: &DiffTestConfig) -> Resu
         compile_rust(rust_code, config).context("Rust compilation failed during diff test")?;
 
     // Run both
-    let timeout = Duration::from_secs(config.timeout_secs);
-    let c_output = run_binary_with_timeout(&c_bin, timeout).context("Failed to run C binary")?;
-    let rust_output =
-        run_binary_with_timeout(&rs_bin, timeout).context("Failed to run Rust binary")?;
+    let c_output = run_binary(&c_bin).context("Failed to run C binary")?;
+    let rust_output = run_binary(&rs_bin).context("Failed to run Rust binary")?;
 
     // Compare
     let stdout_matches = c_output.stdout == rust_output.stdout;
-- 
2.43.0


From 162ffbd2ae91f4ec3aa587bf3aa3d8cc0c74d3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:03 +0000
Subject: [PATCH 46/70] fix: do not take a quote in the comment of a system
 include for a local one

---
 crates/decy-core/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index c4799fc..2110faa 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -291,7 +291,7 @@ impl DependencyGraph {
             let trimmed = line.trim();
             if trimmed.starts_with("#include") {
                 // Extract filename from #include "file.h" or #include <file.h>
-                if let Some(start) = trimmed.find('"').or_else(|| trimmed.find('<')) {
+                if let Some(start) = trimmed.find(['"', '<']) {
                     let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
                     if let Some(end) = trimmed[start + 1..].find(end_char) {
                         let filename = &trimmed[start + 1..start + 1 + end];
@@ -523,6 +523,13 @@ impl Default for TranspilationCache {
     }
 }
 
+/// Position of the quote that opens the filename of a local #include.
+///
+/// A later quote, in a comment, does not make a system include a local one.
+fn include_quote(directive: &str) -> Option<usize> {
+    directive.find('"').filter(|quote| directive.find('<').map_or(true, |angle| *quote < angle))
+}
+
 /// Preprocess #include directives in C source code (DECY-056).
 ///
 /// Resolves and inlines #include directives recursively, tracking processed files
@@ -559,7 +566,7 @@ fn preprocess_includes(
         // Check for #include directive
         if trimmed.starts_with("#include") {
             // Extract filename from #include "file.h" or #include <file.h>
-            let (filename, is_system) = if let Some(start) = trimmed.find('"') {
+            let (filename, is_system) = if let Some(start) = include_quote(trimmed) {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let filename = &trimmed[start + 1..start + 1 + end];
                     (filename, false)
@@ -1706,7 +1713,7 @@ fn collect_dependencies(
         let trimmed = line.trim();
         if trimmed.starts_with("#include") {
             // Extract header filename from #include "header.h" or #include <header.h>
-            if let Some(start) = trimmed.find('"') {
+            if let Some(start) = include_quote(trimmed) {
                 if let Some(end) = trimmed[start + 1..].find('"') {
                     let header_name = &trimmed[start + 1..start + 1 + end];
                     let header_path = source_dir.join(header_name);
-- 
2.43.0


From e61b75b138f55c97a8023080e6018907fc548f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:52 +0000
Subject: [PATCH 47/70] fix: recognise include directives with blanks after the
 hash

---
 crates/decy-core/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index 2110faa..f4042ea 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -289,7 +289,7 @@ impl DependencyGraph {
 
         for line in code.lines() {
             let trimmed = line.trim();
-            if trimmed.starts_with("#include") {
+            if is_include_directive(trimmed) {
                 // Extract filename from #include "file.h" or #include <file.h>
                 if let Some(start) = trimmed.find(['"', '<']) {
                     let end_char = if trimmed.chars().nth(start) == Some('"') { '"' } else { '>' };
@@ -523,6 +523,11 @@ impl Default for TranspilationCache {
     }
 }
 
+/// Whether a (trimmed) line is an #include directive; blanks may follow the '#'.
+fn is_include_directive(line: &str) -> bool {
+    line.strip_prefix('#').is_some_and(|rest| rest.trim_start().starts_with("include"))
+}
+
 /// Position of the quote that opens the filename of a local #include.
 ///
 /// A later quote, in a comment, does not make a system include a local one.
@@ -564,7 +569,7 @@ fn preprocess_includes(
         let trimmed = line.trim();
 
         // Check for #include directive
-        if trimmed.starts_with("#include") {
+        if is_include_directive(trimmed) {
             // Extract filename from #include "file.h" or #include <file.h>
             let (filename, is_system) = if let Some(start) = include_quote(trimmed) {
                 if let Some(end) = trimmed[start + 1..].find('"') {
@@ -1711,7 +1716,7 @@ fn collect_dependencies(
 
     for line in c_code.lines() {
         let trimmed = line.trim();
-        if trimmed.starts_with("#include") {
+        if is_include_directive(trimmed) {
             // Extract header filename from #include "header.h" or #include <header.h>
             if let Some(start) = include_quote(trimmed) {
                 if let Some(end) = trimmed[start + 1..].find('"') {
-- 
2.43.0


From edb1d00e24fd94b9568f2a82ea002640b90ee571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:48 +0000
Subject: [PATCH 48/70] fix: read hexadecimal, octal, binary and suffixed
 integer literals

---
 crates/decy-parser/src/extract/expressions.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 1f6acaf..9bdd50a 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -356,7 +356,7 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
             let token_cxstring = clang_getTokenSpelling(tu, *tokens);
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
-                value = token_str.parse().unwrap_or(0);
+                value = parse_int_literal(token_str);
             }
             clang_disposeString(token_cxstring);
 
@@ -378,6 +378,23 @@ pub(crate) fn extract_int_literal(cursor: CXCursor) -> Option<Expression> {
     Some(Expression::IntLiteral(value))
 }
 
+/// Parse a C integer literal: decimal, octal, hexadecimal or binary, with or without suffix.
+fn parse_int_literal(token: &str) -> i32 {
+    let digits = token.trim_end_matches(['u', 'U', 'l', 'L']);
+    let (digits, radix) = if let Some(hex) = digits.strip_prefix("0x").or(digits.strip_prefix("0X"))
+    {
+        (hex, 16)
+    } else if let Some(bin) = digits.strip_prefix("0b").or(digits.strip_prefix("0B")) {
+        (bin, 2)
+    } else if digits.len() > 1 && digits.starts_with('0') {
+        (&digits[1..], 8)
+    } else {
+        (digits, 10)
+    };
+    // Larger literals keep their low 32 bits (0xFFFFFFFF is -1)
+    u64::from_str_radix(digits, radix).map(|value| value as i32).unwrap_or(0)
+}
+
 /// DECY-207: Extract a floating-point literal expression.
 pub(crate) fn extract_float_literal(cursor: CXCursor) -> Option<Expression> {
     // SAFETY: Get the extent (source range) of the cursor
-- 
2.43.0


From d18d30975b4abd628a620e99d78141f16286fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:06 +0000
Subject: [PATCH 49/70] fix: read the character constant '\''

---
 crates/decy-parser/src/extract/expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 9bdd50a..8e05263 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -544,7 +544,9 @@ pub(crate) fn extract_char_literal(cursor: CXCursor) -> Option<Expression> {
             let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
             if let Ok(token_str) = c_str.to_str() {
                 // Remove surrounding quotes from character literal
-                let inner = token_str.trim_matches('\'');
+                // (one on each side: the character itself may be an escaped quote)
+                let inner = token_str.strip_prefix('\'').unwrap_or(token_str);
+                let inner = inner.strip_suffix('\'').unwrap_or(inner);
                 value = parse_char_literal(inner);
             }
             clang_disposeString(token_cxstring);
-- 
2.43.0


From f1e14a41369ecbe35e2ec9ed8fcf968cfb6d7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:48 +0000
Subject: [PATCH 50/70] fix: keep the width of %c

---
 crates/decy-codegen/src/expr_gen/misc.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 1ece00a..ef77e0e 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -887,6 +887,9 @@ impl CodeGenerator {
                                 "{}".to_string()
                             }
                         }
+                        // Rust aligns a char to the left by default, C to the right
+                        'c' if !width.is_empty() && !left_align => format!("{{:>{}}}", width),
+                        'c' if !width.is_empty() => format!("{{:<{}}}", width),
                         'c' => "{}".to_string(),
                         'p' => "{:p}".to_string(),
                         _ => {
-- 
2.43.0


From 35127a104b40c917ace555f720d30fcca23b8ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:50 +0000
Subject: [PATCH 51/70] fix: keep the precision of %s

---
 crates/decy-codegen/src/expr_gen/misc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index ef77e0e..1ddac2c 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -881,7 +881,9 @@ impl CodeGenerator {
                         'E' => "{:E}".to_string(),
                         'g' | 'G' => "{}".to_string(),
                         's' => {
-                            if !width.is_empty() {
+                            if !precision.is_empty() {
+                                format!("{{:{}.{}}}", width, precision)
+                            } else if !width.is_empty() {
                                 format!("{{:{}}}", width)
                             } else {
                                 "{}".to_string()
-- 
2.43.0


From 2e85f28107dfe29ee7b6e26f61ae202e8b311f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 52/70] fix: see accesses in for, switch, increments and
 conditional expressions under a lock

---
 crates/decy-analyzer/src/lock_analysis.rs | 60 ++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 1 deletion(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index 11c86e5..b1dcadb 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -206,6 +206,23 @@ impl LockAnalyzer {
                     self.collect_accessed_variables(s, accessed);
                 }
             }
+            HirStatement::For { init, condition, increment, body } => {
+                if let Some(condition) = condition {
+                    self.collect_variables_from_expr(condition, accessed);
+                }
+                for s in init.iter().chain(increment).chain(body) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                self.collect_variables_from_expr(condition, accessed);
+                for s in cases.iter().flat_map(|c| &c.body).chain(default_case.iter().flatten()) {
+                    self.collect_accessed_variables(s, accessed);
+                }
+            }
+            HirStatement::Free { pointer } => {
+                self.collect_variables_from_expr(pointer, accessed);
+            }
             HirStatement::Expression(expr) => {
                 self.collect_variables_from_expr(expr, accessed);
             }
@@ -260,7 +277,48 @@ impl LockAnalyzer {
             HirExpression::Cast { expr, .. } => {
                 self.collect_variables_from_expr(expr, accessed);
             }
-            // Literals and other expressions don't reference variables
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
+                self.collect_variables_from_expr(operand, accessed);
+            }
+            HirExpression::PointerFieldAccess { pointer, .. } => {
+                self.collect_variables_from_expr(pointer, accessed);
+            }
+            HirExpression::SliceIndex { slice, index, .. } => {
+                self.collect_variables_from_expr(slice, accessed);
+                self.collect_variables_from_expr(index, accessed);
+            }
+            HirExpression::IsNotNull(inner) => {
+                self.collect_variables_from_expr(inner, accessed);
+            }
+            HirExpression::Calloc { count: size, .. } | HirExpression::Malloc { size } => {
+                self.collect_variables_from_expr(size, accessed);
+            }
+            HirExpression::Realloc { pointer, new_size } => {
+                self.collect_variables_from_expr(pointer, accessed);
+                self.collect_variables_from_expr(new_size, accessed);
+            }
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                self.collect_variables_from_expr(receiver, accessed);
+                for arg in arguments {
+                    self.collect_variables_from_expr(arg, accessed);
+                }
+            }
+            HirExpression::CompoundLiteral { initializers: items, .. }
+            | HirExpression::CxxNew { arguments: items, .. } => {
+                for item in items {
+                    self.collect_variables_from_expr(item, accessed);
+                }
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                self.collect_variables_from_expr(condition, accessed);
+                self.collect_variables_from_expr(then_expr, accessed);
+                self.collect_variables_from_expr(else_expr, accessed);
+            }
+            // Literals don't reference variables
             _ => {}
         }
     }
-- 
2.43.0


From 0e227a537f3b5d071724ff8dfe94c65a38ca0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 53/70] fix: report unprotected accesses in conditions, loops,
 element and field assignments

---
 crates/decy-verify/src/lock_verify.rs | 100 +++++++++++++++++++++++---
 1 file changed, 90 insertions(+), 10 deletions(-)

diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index d69a7af..490f989 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -174,27 +174,66 @@ impl<'a> LockDisciplineChecker<'a> {
 
     /// Collect all variable names accessed in a statement
     fn collect_accessed_vars(&self, stmt: &decy_hir::HirStatement) -> Vec<String> {
-        use decy_hir::HirStatement;
         let mut vars = Vec::new();
+        Self::collect_vars_from_stmt(stmt, &mut vars);
+        vars
+    }
+
+    fn collect_vars_from_stmt(stmt: &decy_hir::HirStatement, vars: &mut Vec<String>) {
+        use decy_hir::HirStatement;
 
         match stmt {
             HirStatement::Assignment { target, value } => {
                 vars.push(target.clone());
-                Self::collect_vars_from_expr(value, &mut vars);
+                Self::collect_vars_from_expr(value, vars);
             }
-            HirStatement::VariableDeclaration { initializer: Some(init), .. } => {
-                Self::collect_vars_from_expr(init, &mut vars);
+            HirStatement::VariableDeclaration { initializer: Some(expr), .. }
+            | HirStatement::Expression(expr)
+            | HirStatement::Return(Some(expr))
+            | HirStatement::Free { pointer: expr } => {
+                Self::collect_vars_from_expr(expr, vars);
             }
-            HirStatement::Expression(expr) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
+            HirStatement::If { condition, then_block, else_block } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in then_block.iter().chain(else_block.iter().flatten()) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
             }
-            HirStatement::Return(Some(expr)) => {
-                Self::collect_vars_from_expr(expr, &mut vars);
+            HirStatement::While { condition, body } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in body {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+            }
+            HirStatement::For { init, condition, increment, body } => {
+                if let Some(condition) = condition {
+                    Self::collect_vars_from_expr(condition, vars);
+                }
+                for s in init.iter().chain(increment).chain(body) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+            }
+            HirStatement::Switch { condition, cases, default_case } => {
+                Self::collect_vars_from_expr(condition, vars);
+                for s in cases.iter().flat_map(|c| &c.body).chain(default_case.iter().flatten()) {
+                    Self::collect_vars_from_stmt(s, vars);
+                }
+            }
+            HirStatement::DerefAssignment { target, value } => {
+                Self::collect_vars_from_expr(target, vars);
+                Self::collect_vars_from_expr(value, vars);
+            }
+            HirStatement::ArrayIndexAssignment { array, index, value } => {
+                Self::collect_vars_from_expr(array, vars);
+                Self::collect_vars_from_expr(index, vars);
+                Self::collect_vars_from_expr(value, vars);
+            }
+            HirStatement::FieldAssignment { object, value, .. } => {
+                Self::collect_vars_from_expr(object, vars);
+                Self::collect_vars_from_expr(value, vars);
             }
             _ => {}
         }
-
-        vars
     }
 
     /// Recursively collect variable names from an expression
@@ -230,6 +269,47 @@ impl<'a> LockDisciplineChecker<'a> {
             HirExpression::Cast { expr, .. } => {
                 Self::collect_vars_from_expr(expr, vars);
             }
+            HirExpression::PostIncrement { operand }
+            | HirExpression::PreIncrement { operand }
+            | HirExpression::PostDecrement { operand }
+            | HirExpression::PreDecrement { operand }
+            | HirExpression::CxxDelete { operand } => {
+                Self::collect_vars_from_expr(operand, vars);
+            }
+            HirExpression::PointerFieldAccess { pointer, .. } => {
+                Self::collect_vars_from_expr(pointer, vars);
+            }
+            HirExpression::SliceIndex { slice, index, .. } => {
+                Self::collect_vars_from_expr(slice, vars);
+                Self::collect_vars_from_expr(index, vars);
+            }
+            HirExpression::IsNotNull(inner) => {
+                Self::collect_vars_from_expr(inner, vars);
+            }
+            HirExpression::Calloc { count: size, .. } | HirExpression::Malloc { size } => {
+                Self::collect_vars_from_expr(size, vars);
+            }
+            HirExpression::Realloc { pointer, new_size } => {
+                Self::collect_vars_from_expr(pointer, vars);
+                Self::collect_vars_from_expr(new_size, vars);
+            }
+            HirExpression::StringMethodCall { receiver, arguments, .. } => {
+                Self::collect_vars_from_expr(receiver, vars);
+                for arg in arguments {
+                    Self::collect_vars_from_expr(arg, vars);
+                }
+            }
+            HirExpression::CompoundLiteral { initializers: items, .. }
+            | HirExpression::CxxNew { arguments: items, .. } => {
+                for item in items {
+                    Self::collect_vars_from_expr(item, vars);
+                }
+            }
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::collect_vars_from_expr(condition, vars);
+                Self::collect_vars_from_expr(then_expr, vars);
+                Self::collect_vars_from_expr(else_expr, vars);
+            }
             _ => {}
         }
     }
-- 
2.43.0


From 84cec05be3d241df2f99206f03c40e1edad3c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:08 +0000
Subject: [PATCH 54/70] fix: detect reversed lock orders when a lock is
 acquired repeatedly

---
 crates/decy-verify/src/lock_verify.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index 490f989..9c5998a 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -384,12 +384,12 @@ impl<'a> LockDisciplineChecker<'a> {
                 let lock_a = &ordering1[i];
                 let lock_b = &ordering1[j];
 
-                // Check if ordering2 has lock_b before lock_a
-                let pos_a_in_2 = ordering2.iter().position(|l| l == lock_a);
+                // Check if ordering2 has lock_b before lock_a (at any of their acquisitions)
+                let pos_a_in_2 = ordering2.iter().rposition(|l| l == lock_a);
                 let pos_b_in_2 = ordering2.iter().position(|l| l == lock_b);
 
                 if let (Some(pos_a), Some(pos_b)) = (pos_a_in_2, pos_b_in_2) {
-                    if pos_b < pos_a {
+                    if lock_a != lock_b && pos_b < pos_a {
                         // Found reverse ordering - potential deadlock!
                         return Some(format!(
                             "Potential deadlock: Inconsistent lock ordering detected. \
-- 
2.43.0


From 06807f3fca2bddb8a3786d4779b9ac57460fd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:42 +0000
Subject: [PATCH 55/70] fix: recognise the locks of parsed functions

---
 crates/decy-analyzer/src/lock_analysis.rs | 31 +++++++++++++++--------
 crates/decy-verify/src/lock_verify.rs     |  6 +----
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/crates/decy-analyzer/src/lock_analysis.rs b/crates/decy-analyzer/src/lock_analysis.rs
index b1dcadb..2883a73 100644
--- a/crates/decy-analyzer/src/lock_analysis.rs
+++ b/crates/decy-analyzer/src/lock_analysis.rs
@@ -3,7 +3,7 @@
 //! Analyzes C code with pthread_mutex locks to determine which locks
 //! protect which data variables, enabling safe `Mutex<T>` generation.
 
-use decy_hir::{HirExpression, HirFunction, HirStatement};
+use decy_hir::{HirExpression, HirFunction, HirStatement, UnaryOperator};
 use std::collections::{HashMap, HashSet};
 
 /// Represents a locked code region.
@@ -97,17 +97,30 @@ impl LockAnalyzer {
         regions
     }
 
+    /// Name of the mutex an argument of the form `&lock` denotes.
+    ///
+    /// The parser represents `&lock` as a unary operator, other producers of
+    /// HIR as `AddressOf`.
+    pub fn mutex_name(argument: &HirExpression) -> Option<String> {
+        match argument {
+            HirExpression::AddressOf(inner)
+            | HirExpression::UnaryOp { op: UnaryOperator::AddressOf, operand: inner } => {
+                match &**inner {
+                    HirExpression::Variable(name) => Some(name.clone()),
+                    _ => None,
+                }
+            }
+            _ => None,
+        }
+    }
+
     /// Extract lock name from pthread_mutex_lock call.
     fn extract_lock_call(stmt: &HirStatement) -> Option<String> {
         if let HirStatement::Expression(HirExpression::FunctionCall { function, arguments }) = stmt
         {
             if function == "pthread_mutex_lock" {
                 // Extract lock name from &lock argument
-                if let Some(HirExpression::AddressOf(inner)) = arguments.first() {
-                    if let HirExpression::Variable(name) = &**inner {
-                        return Some(name.clone());
-                    }
-                }
+                return arguments.first().and_then(Self::mutex_name);
             }
         }
         None
@@ -119,11 +132,7 @@ impl LockAnalyzer {
         {
             if function == "pthread_mutex_unlock" {
                 // Extract lock name from &lock argument
-                if let Some(HirExpression::AddressOf(inner)) = arguments.first() {
-                    if let HirExpression::Variable(name) = &**inner {
-                        return Some(name.clone());
-                    }
-                }
+                return arguments.first().and_then(Self::mutex_name);
             }
         }
         None
diff --git a/crates/decy-verify/src/lock_verify.rs b/crates/decy-verify/src/lock_verify.rs
index 9c5998a..a8476d9 100644
--- a/crates/decy-verify/src/lock_verify.rs
+++ b/crates/decy-verify/src/lock_verify.rs
@@ -360,11 +360,7 @@ impl<'a> LockDisciplineChecker<'a> {
                 stmt
             {
                 if function == "pthread_mutex_lock" {
-                    if let Some(HirExpression::AddressOf(inner)) = arguments.first() {
-                        if let HirExpression::Variable(name) = &**inner {
-                            ordering.push(name.clone());
-                        }
-                    }
+                    ordering.extend(arguments.first().and_then(LockAnalyzer::mutex_name));
                 }
             }
         }
-- 
2.43.0


From 22d61e932eb967780acb80a97db37b72409080d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:42 +0000
Subject: [PATCH 56/70] fix: resolve local includes when tracing a
 transpilation

---
 crates/decy-core/src/lib.rs | 14 +++++++++++++-
 crates/decy/src/main.rs     |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/decy-core/src/lib.rs b/crates/decy-core/src/lib.rs
index f4042ea..67ac0d3 100644
--- a/crates/decy-core/src/lib.rs
+++ b/crates/decy-core/src/lib.rs
@@ -728,6 +728,18 @@ pub fn transpile(c_code: &str) -> Result<String> {
 /// # Ok::<(), anyhow::Error>(())
 /// ```
 pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollector)> {
+    transpile_with_includes_and_trace(c_code, None)
+}
+
+/// Transpile with decision tracing, resolving local `#include`s against `base_dir`.
+///
+/// # Errors
+///
+/// Returns an error if transpilation fails.
+pub fn transpile_with_includes_and_trace(
+    c_code: &str,
+    base_dir: Option<&Path>,
+) -> Result<(String, trace::TraceCollector)> {
     contract_pre_configuration!();
     use trace::{DecisionType, PipelineStage, TraceCollector, TraceEntry};
 
@@ -745,7 +757,7 @@ pub fn transpile_with_trace(c_code: &str) -> Result<(String, trace::TraceCollect
     });
 
     // Transpile normally
-    let rust_code = transpile(c_code)?;
+    let rust_code = transpile_with_includes(c_code, base_dir)?;
 
     // Record completion
     collector.record(TraceEntry {
diff --git a/crates/decy/src/main.rs b/crates/decy/src/main.rs
index 8244433..5cba2c8 100644
--- a/crates/decy/src/main.rs
+++ b/crates/decy/src/main.rs
@@ -387,7 +387,7 @@ fn transpile_file(
     } else if trace_enabled {
         // DECY-193: Transpile with decision tracing
         let (code, trace_collector) =
-            decy_core::transpile_with_trace(&c_code).with_context(|| {
+            decy_core::transpile_with_includes_and_trace(&c_code, base_dir).with_context(|| {
                 format!(
                     "Failed to transpile {}\n\nTry: Check if the C code has syntax errors\n  or: Preprocess the file first: gcc -E {} -o preprocessed.c",
                     input.display(),
-- 
2.43.0


From 8a0bb11e6cc1186a74afc8322c4306fd3e647e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:16 +0000
Subject: [PATCH 57/70] fix: keep the effects of comma, logical and conditional
 expression statements

---
 crates/decy-parser/src/extract/mod.rs | 59 +++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/crates/decy-parser/src/extract/mod.rs b/crates/decy-parser/src/extract/mod.rs
index 71646b3..ca4d757 100644
--- a/crates/decy-parser/src/extract/mod.rs
+++ b/crates/decy-parser/src/extract/mod.rs
@@ -253,6 +253,46 @@ pub(crate) extern "C" fn visit_function(
     CXChildVisit_Recurse
 }
 
+/// Extract `a && b;`, `a || b;` (op given) or `a ? b : c;` used as a statement.
+fn extract_conditional_effect(cursor: CXCursor, op: Option<BinaryOperator>) -> Option<Statement> {
+    extern "C" fn collect(
+        cursor: CXCursor,
+        _parent: CXCursor,
+        data: CXClientData,
+    ) -> CXChildVisitResult {
+        // SAFETY: data is the vector passed below
+        unsafe { &mut *(data as *mut Vec<CXCursor>) }.push(cursor);
+        CXChildVisit_Continue
+    }
+    let statements_of = |operand: CXCursor| {
+        let mut block: Vec<Statement> = Vec::new();
+        let data = &mut block as *mut Vec<Statement> as CXClientData;
+        if visit_statement(operand, cursor, data) == CXChildVisit_Recurse {
+            // SAFETY: operand is a valid cursor, data outlives the call
+            unsafe { clang_visitChildren(operand, visit_statement, data) };
+        }
+        block
+    };
+
+    let mut children: Vec<CXCursor> = Vec::new();
+    // SAFETY: cursor is valid, children outlives the call
+    unsafe {
+        clang_visitChildren(
+            cursor,
+            collect,
+            &mut children as *mut Vec<CXCursor> as CXClientData,
+        );
+    }
+    let mut condition = expressions::try_extract_expression(*children.first()?)?;
+    if op == Some(BinaryOperator::LogicalOr) {
+        condition =
+            Expression::UnaryOp { op: UnaryOperator::LogicalNot, operand: Box::new(condition) };
+    }
+    let then_block = statements_of(*children.get(1)?);
+    let else_block = children.get(2).map(|c| statements_of(*c));
+    Some(Statement::If { condition, then_block, else_block })
+}
+
 /// Visitor callback for extracting statements from function body.
 ///
 /// # Safety
@@ -297,6 +337,25 @@ pub(crate) extern "C" fn visit_statement(
             // Could be an assignment statement (x = 42)
             if let Some(stmt) = extract_assignment_stmt(cursor) {
                 statements.push(stmt);
+                return CXChildVisit_Continue;
+            }
+            match expressions::extract_binary_operator(cursor) {
+                // Evaluated for the effects of the second operand (ok && stop();)
+                Some(op @ (BinaryOperator::LogicalAnd | BinaryOperator::LogicalOr)) => {
+                    if let Some(stmt) = extract_conditional_effect(cursor, Some(op)) {
+                        statements.push(stmt);
+                    }
+                    CXChildVisit_Continue
+                }
+                // Comma statement (i++, j--): its operands are statements
+                Some(_) => CXChildVisit_Recurse,
+                None => CXChildVisit_Continue,
+            }
+        }
+        116 => {
+            // CXCursor_ConditionalOperator as statement (c ? f() : g();)
+            if let Some(stmt) = extract_conditional_effect(cursor, None) {
+                statements.push(stmt);
             }
             CXChildVisit_Continue
         }
-- 
2.43.0


From b8241f05e2534c6b4748c39338faa54bc3262bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:16 +0000
Subject: [PATCH 58/70] fix: translate compound assignments used as expressions

---
 crates/decy-parser/src/extract/expressions.rs | 51 +++++++++++++++++++
 crates/decy-parser/src/extract/statements.rs  |  4 +-
 2 files changed, 54 insertions(+), 1 deletion(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 8e05263..89bfe22 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -24,6 +24,7 @@ pub(crate) fn try_extract_expression(cursor: CXCursor) -> Option<Expression> {
         110 => extract_char_literal(cursor), // CXCursor_CharacterLiteral
         CXCursor_DeclRefExpr => extract_variable_ref(cursor),
         CXCursor_BinaryOperator => extract_binary_op(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_expr(cursor),
         CXCursor_CallExpr => extract_function_call(cursor),
         CXCursor_UnaryOperator => extract_unary_op(cursor),
         CXCursor_ArraySubscriptExpr => extract_array_index(cursor),
@@ -104,6 +105,7 @@ pub(crate) fn extract_expression_from_cursor(cursor: CXCursor) -> Option<Express
     let kind = unsafe { clang_getCursorKind(cursor) };
     match kind {
         CXCursor_BinaryOperator => extract_binary_op(cursor),
+        CXCursor_CompoundAssignOperator => extract_compound_assignment_expr(cursor),
         CXCursor_IntegerLiteral => extract_int_literal(cursor),
         107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
         110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
@@ -210,6 +212,12 @@ pub(crate) extern "C" fn visit_expression(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                *expr_opt = Some(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_CallExpr => {
             // Function call
             if let Some(expr) = extract_function_call(cursor) {
@@ -651,6 +659,37 @@ pub(crate) fn extract_binary_op(cursor: CXCursor) -> Option<Expression> {
     })
 }
 
+/// Extract a compound assignment used as an expression: `x op= e` is `x = x op e`.
+pub(crate) fn extract_compound_assignment_expr(cursor: CXCursor) -> Option<Expression> {
+    let (target, op, value) = match extract_compound_assignment_stmt(cursor)? {
+        Statement::CompoundAssignment { target, op, value } => {
+            (Expression::Variable(target), op, value)
+        }
+        Statement::DerefCompoundAssignment {
+            target:
+                target @ (Expression::PointerFieldAccess { .. }
+                | Expression::FieldAccess { .. }
+                | Expression::ArrayIndex { .. }),
+            op,
+            value,
+        } => (target, op, value),
+        // The statement holds the pointer of `*p op= e`
+        Statement::DerefCompoundAssignment { target, op, value } => {
+            (Expression::Dereference(Box::new(target)), op, value)
+        }
+        _ => return None,
+    };
+    Some(Expression::BinaryOp {
+        op: BinaryOperator::Assign,
+        left: Box::new(target.clone()),
+        right: Box::new(Expression::BinaryOp {
+            op,
+            left: Box::new(target),
+            right: Box::new(value),
+        }),
+    })
+}
+
 /// Visitor callback for binary operator operands.
 pub(crate) extern "C" fn visit_binary_operand(
     cursor: CXCursor,
@@ -700,6 +739,12 @@ pub(crate) extern "C" fn visit_binary_operand(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                operands.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_UnaryOperator => {
             // Unary operation (e.g., *ptr dereference)
             if let Some(expr) = extract_unary_op(cursor) {
@@ -1205,6 +1250,12 @@ pub(crate) extern "C" fn visit_call_argument(
             }
             CXChildVisit_Continue
         }
+        CXCursor_CompoundAssignOperator => {
+            if let Some(expr) = extract_compound_assignment_expr(cursor) {
+                arg_data.arguments.push(expr);
+            }
+            CXChildVisit_Continue
+        }
         CXCursor_CallExpr => {
             // Nested function call (e.g., add(add(x, 5), add(10, 20)))
             if let Some(expr) = extract_function_call(cursor) {
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 9068226..6f576b2 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -7,7 +7,7 @@ use std::ptr;
 
 use super::expressions::{
     extract_array_index, extract_binary_op, extract_binary_operator, extract_binary_operator_from_children, extract_char_literal,
-    extract_conditional_op, extract_expression_from_cursor, extract_field_access, extract_float_literal,
+    extract_compound_assignment_expr, extract_conditional_op, extract_expression_from_cursor, extract_field_access, extract_float_literal,
     extract_function_call, extract_int_literal, extract_single_statement, extract_unary_op,
     extract_variable_ref, try_extract_expression, visit_binary_operand,
     visit_expression,
@@ -656,6 +656,7 @@ pub(crate) extern "C" fn visit_if_children(
             // The cursor itself IS the condition, extract it directly
             if_data.condition = match kind {
                 CXCursor_BinaryOperator => extract_binary_op(cursor),
+                CXCursor_CompoundAssignOperator => extract_compound_assignment_expr(cursor),
                 CXCursor_IntegerLiteral => extract_int_literal(cursor),
                 107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
                 110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
@@ -1130,6 +1131,7 @@ pub(crate) extern "C" fn visit_while_children(
             // The cursor itself IS the condition, extract it directly
             while_data.condition = match kind {
                 CXCursor_BinaryOperator => extract_binary_op(cursor),
+                CXCursor_CompoundAssignOperator => extract_compound_assignment_expr(cursor),
                 CXCursor_IntegerLiteral => extract_int_literal(cursor),
                 107 => extract_float_literal(cursor), // CXCursor_FloatingLiteral
                 110 => extract_char_literal(cursor),  // CXCursor_CharacterLiteral
-- 
2.43.0


From 92bc966ad80772a9e858dc3b24d0c8784024cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:16 +0000
Subject: [PATCH 59/70] fix: generate valid code for increments, assignments
 and commas inside expressions

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 23 ++++++++++--
 crates/decy-codegen/src/expr_gen/misc.rs      | 36 +++++++++++++++----
 crates/decy-codegen/src/stmt_gen.rs           |  4 +--
 3 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index 736ace6..e3d96f4 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -46,8 +46,16 @@ impl CodeGenerator {
 
         if matches!(op, BinaryOperator::Comma) {
             let left_code = self.generate_expression_with_context(left, ctx);
-            let right_code = self.generate_expression_with_context(right, ctx);
-            return format!("{{ {}; {} }}", left_code, right_code);
+            // In C a comparison or logical operator yields an int
+            let int_type = HirType::Int;
+            let right_type = target_type
+                .or_else(|| Self::is_boolean_expression(right).then_some(&int_type));
+            let right_code = self.generate_expression_with_target_type(right, ctx, right_type);
+            return format!(
+                "{{ {}; {} }}",
+                Self::as_block_member(left, left_code),
+                Self::as_block_member(right, right_code)
+            );
         }
 
         let op_str = Self::binary_operator_to_string(op);
@@ -206,7 +214,9 @@ impl CodeGenerator {
         right: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
-        let right_code = self.generate_expression_with_context(right, ctx);
+        let target_type = ctx.infer_expression_type(left);
+        let right_code =
+            self.generate_expression_with_target_type(right, ctx, target_type.as_ref());
 
         if let HirExpression::ArrayIndex { array, index } = left {
             if let HirExpression::Variable(var_name) = &**array {
@@ -221,6 +231,13 @@ impl CodeGenerator {
         }
 
         let left_code = self.generate_expression_with_context(left, ctx);
+        if Self::is_rooted_in_global(left, ctx) {
+            return format!(
+                "{{ let __assign_tmp = {}; unsafe {{ {} = __assign_tmp }}; __assign_tmp }}",
+                right_code,
+                Self::strip_nested_unsafe(&left_code)
+            );
+        }
         format!(
             "{{ let __assign_tmp = {}; {} = __assign_tmp; __assign_tmp }}",
             right_code, left_code
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 1ddac2c..587f8a0 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -369,6 +369,10 @@ impl CodeGenerator {
         }
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
+        if Self::is_rooted_in_global(operand, ctx) {
+            let place = Self::strip_nested_unsafe(&operand_code);
+            return format!("{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} += 1 }}; __tmp }}");
+        }
 
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
@@ -398,6 +402,10 @@ impl CodeGenerator {
         }
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
+        if Self::is_rooted_in_global(operand, ctx) {
+            let place = Self::strip_nested_unsafe(&operand_code);
+            return format!("{{ unsafe {{ {place} += 1 }}; unsafe {{ {place} }} }}");
+        }
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
@@ -426,6 +434,10 @@ impl CodeGenerator {
         }
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
+        if Self::is_rooted_in_global(operand, ctx) {
+            let place = Self::strip_nested_unsafe(&operand_code);
+            return format!("{{ let __tmp = unsafe {{ {place} }}; unsafe {{ {place} -= 1 }}; __tmp }}");
+        }
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
@@ -454,6 +466,10 @@ impl CodeGenerator {
         }
 
         let operand_code = self.generate_expression_with_context(operand, ctx);
+        if Self::is_rooted_in_global(operand, ctx) {
+            let place = Self::strip_nested_unsafe(&operand_code);
+            return format!("{{ unsafe {{ {place} -= 1 }}; unsafe {{ {place} }} }}");
+        }
         let operand_type = ctx.infer_expression_type(operand);
         if matches!(operand_type, Some(HirType::Pointer(_))) {
             format!(
@@ -465,6 +481,18 @@ impl CodeGenerator {
         }
     }
 
+    /// Code of an expression that stands at the start of a block or statement, where
+    /// `unsafe { x } + y` would be two statements.
+    pub(crate) fn as_block_member(expr: &HirExpression, code: String) -> String {
+        let starts_with_block =
+            code.starts_with('{') || code.starts_with("unsafe {") || code.starts_with("if ");
+        if starts_with_block && matches!(expr, HirExpression::BinaryOp { .. }) {
+            format!("({})", code)
+        } else {
+            code
+        }
+    }
+
     pub(crate) fn gen_expr_ternary(
         &self,
         condition: &HirExpression,
@@ -480,15 +508,9 @@ impl CodeGenerator {
         let int_type = HirType::Int;
         let target_type =
             if yields_bool && target_type.is_none() { Some(&int_type) } else { target_type };
-        // At the start of a block `unsafe { x } + y` would be two statements
         let branch_code = |expr: &HirExpression| {
             let code = self.generate_expression_with_target_type(expr, ctx, target_type);
-            let starts_with_block = code.starts_with("unsafe {") || code.starts_with("if ");
-            if starts_with_block && matches!(expr, HirExpression::BinaryOp { .. }) {
-                format!("({})", code)
-            } else {
-                code
-            }
+            Self::as_block_member(expr, code)
         };
         let then_code = branch_code(then_expr);
         let else_code = branch_code(else_expr);
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 5e7a086..f24c20e 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -631,7 +631,7 @@ impl CodeGenerator {
 
     /// DECY-261: Replace every `unsafe { X }` in an expression by `X`, for use where the expression
     /// is put inside an unsafe block of its own.
-    fn strip_nested_unsafe(code: &str) -> String {
+    pub(crate) fn strip_nested_unsafe(code: &str) -> String {
         const OPEN: &str = "unsafe { ";
         let Some(start) = code.find(OPEN) else {
             return code.to_string();
@@ -1142,7 +1142,7 @@ impl CodeGenerator {
     }
 
     /// Whether a place expression (`g.f`, `g[i]`, `g.f[i]`, ...) is part of a global variable.
-    fn is_rooted_in_global(place: &HirExpression, ctx: &TypeContext) -> bool {
+    pub(crate) fn is_rooted_in_global(place: &HirExpression, ctx: &TypeContext) -> bool {
         match place {
             HirExpression::Variable(name) => ctx.is_global(name),
             HirExpression::FieldAccess { object, .. } => Self::is_rooted_in_global(object, ctx),
-- 
2.43.0


From 9c8ba514ea6bd27b4682fb7aaaf94e7559889c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:36 +0000
Subject: [PATCH 60/70] fix: find the operator of increments and compound
 assignments whose operand contains another

---
 crates/decy-parser/src/extract/expressions.rs |  8 ++++++--
 crates/decy-parser/src/extract/statements.rs  | 18 +++++++++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/decy-parser/src/extract/expressions.rs b/crates/decy-parser/src/extract/expressions.rs
index 89bfe22..859613b 100644
--- a/crates/decy-parser/src/extract/expressions.rs
+++ b/crates/decy-parser/src/extract/expressions.rs
@@ -1366,11 +1366,15 @@ pub(crate) fn extract_unary_op(cursor: CXCursor) -> Option<Expression> {
                     match token_str {
                         "*" if i == 0 => found_star_at_zero = true,
                         "(" if i == 0 => found_open_paren_at_zero = true,
-                        "++" => {
+                        // A leading operator is this cursor's own; otherwise the last one is,
+                        // and those before it belong to the operand
+                        "++" if found_increment != Some(0) && found_decrement != Some(0) => {
                             found_increment = Some(i);
+                            found_decrement = None;
                         }
-                        "--" => {
+                        "--" if found_increment != Some(0) && found_decrement != Some(0) => {
                             found_decrement = Some(i);
+                            found_increment = None;
                         }
                         "-" if i == 0 && operator.is_none() => {
                             operator = Some(UnaryOperator::Minus);
diff --git a/crates/decy-parser/src/extract/statements.rs b/crates/decy-parser/src/extract/statements.rs
index 6f576b2..19f320f 100644
--- a/crates/decy-parser/src/extract/statements.rs
+++ b/crates/decy-parser/src/extract/statements.rs
@@ -277,8 +277,12 @@ pub(crate) fn extract_inc_dec_stmt(cursor: CXCursor) -> Option<Statement> {
                     if token_str == "++" || token_str == "--" {
                         operator = Some(token_str.to_string()); // Clone the string before disposing
                         operator_position = i;
-                        clang_disposeString(token_cxstring);
-                        break;
+                        // A leading operator is this cursor's own; otherwise the last one is,
+                        // and those before it belong to the operand
+                        if i == 0 {
+                            clang_disposeString(token_cxstring);
+                            break;
+                        }
                     }
                 }
                 clang_disposeString(token_cxstring);
@@ -502,7 +506,9 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
 
     let mut operator: Option<BinaryOperator> = None;
 
-    // Look through tokens to find compound assignment operator
+    // Look through tokens to find compound assignment operator; those inside parentheses or
+    // brackets belong to the operands
+    let mut depth = 0;
     for i in 0..num_tokens {
         unsafe {
             let token = *tokens.add(i as usize);
@@ -512,7 +518,13 @@ pub(crate) fn extract_compound_assignment_stmt(cursor: CXCursor) -> Option<State
                 let token_cxstring = clang_getTokenSpelling(tu, token);
                 let c_str = CStr::from_ptr(clang_getCString(token_cxstring));
                 if let Ok(token_str) = c_str.to_str() {
+                    match token_str {
+                        "(" | "[" | "{" => depth += 1,
+                        ")" | "]" | "}" => depth -= 1,
+                        _ => {}
+                    }
                     operator = match token_str {
+                        _ if depth != 0 => None,
                         "+=" => Some(BinaryOperator::Add),
                         "-=" => Some(BinaryOperator::Subtract),
                         "*=" => Some(BinaryOperator::Multiply),
-- 
2.43.0


From 2f6cb7314d2bb50f9e50da376bb4aaa61f410f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:36 +0000
Subject: [PATCH 61/70] fix: evaluate the index of an updated element once

---
 .../decy-codegen/src/expr_gen/binary_ops.rs   | 15 ++++
 crates/decy-codegen/src/expr_gen/misc.rs      | 87 +++++++++++++++++++
 crates/decy-codegen/src/stmt_gen.rs           | 62 +++++++++++++
 3 files changed, 164 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/binary_ops.rs b/crates/decy-codegen/src/expr_gen/binary_ops.rs
index e3d96f4..1a224ce 100644
--- a/crates/decy-codegen/src/expr_gen/binary_ops.rs
+++ b/crates/decy-codegen/src/expr_gen/binary_ops.rs
@@ -214,6 +214,21 @@ impl CodeGenerator {
         right: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        // `t[i++] op= e` evaluates the place once
+        if let HirExpression::BinaryOp { op, left: old_value, right: operand } = right {
+            if **old_value == *left {
+                if let Some((bindings, place)) = self.hoist_index_effects(left, ctx) {
+                    let updated = HirExpression::BinaryOp {
+                        op: *op,
+                        left: Box::new(place.clone()),
+                        right: operand.clone(),
+                    };
+                    let code = self.gen_expr_binary_assign(&place, &updated, ctx);
+                    return format!("{{ {} {} }}", bindings, code);
+                }
+            }
+        }
+
         let target_type = ctx.infer_expression_type(left);
         let right_code =
             self.generate_expression_with_target_type(right, ctx, target_type.as_ref());
diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 587f8a0..95d9cec 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -340,11 +340,89 @@ impl CodeGenerator {
         }
     }
 
+    /// Bind the indices of a place that have effects (`t[i++]`), so that code which reads and
+    /// writes the place evaluates them once. Gives the bindings and the place in terms of them.
+    pub(crate) fn hoist_index_effects(
+        &self,
+        place: &HirExpression,
+        ctx: &TypeContext,
+    ) -> Option<(String, HirExpression)> {
+        let mut bindings = Vec::new();
+        let place = self.hoist_indices(place, ctx, &mut bindings);
+        if bindings.is_empty() {
+            return None;
+        }
+        Some((bindings.join(" "), place))
+    }
+
+    fn hoist_indices(
+        &self,
+        place: &HirExpression,
+        ctx: &TypeContext,
+        bindings: &mut Vec<String>,
+    ) -> HirExpression {
+        match place {
+            HirExpression::ArrayIndex { array, index } => {
+                let array = Box::new(self.hoist_indices(array, ctx, bindings));
+                if !Self::has_effects(index) {
+                    return HirExpression::ArrayIndex { array, index: index.clone() };
+                }
+                let name = format!("__idx{}", bindings.len());
+                let index_code = self.generate_expression_with_context(index, ctx);
+                bindings.push(format!("let {} = ({}) as usize;", name, index_code));
+                HirExpression::ArrayIndex { array, index: Box::new(HirExpression::Variable(name)) }
+            }
+            HirExpression::FieldAccess { object, field } => HirExpression::FieldAccess {
+                object: Box::new(self.hoist_indices(object, ctx, bindings)),
+                field: field.clone(),
+            },
+            HirExpression::PointerFieldAccess { pointer, field } => {
+                HirExpression::PointerFieldAccess {
+                    pointer: Box::new(self.hoist_indices(pointer, ctx, bindings)),
+                    field: field.clone(),
+                }
+            }
+            _ => place.clone(),
+        }
+    }
+
+    /// Whether an index assigns. (`t[f()] = t[f()] + 1` calls `f` twice in C as well, while the
+    /// same text with an assignment in the index only comes from a compound assignment.)
+    fn has_effects(expr: &HirExpression) -> bool {
+        match expr {
+            HirExpression::PostIncrement { .. }
+            | HirExpression::PreIncrement { .. }
+            | HirExpression::PostDecrement { .. }
+            | HirExpression::PreDecrement { .. }
+            | HirExpression::BinaryOp { op: BinaryOperator::Assign, .. } => true,
+            HirExpression::BinaryOp { left, right, .. } => {
+                Self::has_effects(left) || Self::has_effects(right)
+            }
+            HirExpression::UnaryOp { operand, .. } => Self::has_effects(operand),
+            HirExpression::Ternary { condition, then_expr, else_expr } => {
+                Self::has_effects(condition)
+                    || Self::has_effects(then_expr)
+                    || Self::has_effects(else_expr)
+            }
+            HirExpression::ArrayIndex { array, index } => {
+                Self::has_effects(array) || Self::has_effects(index)
+            }
+            HirExpression::FieldAccess { object, .. } => Self::has_effects(object),
+            HirExpression::PointerFieldAccess { pointer, .. } => Self::has_effects(pointer),
+            HirExpression::Dereference(inner) => Self::has_effects(inner),
+            HirExpression::Cast { expr, .. } => Self::has_effects(expr),
+            _ => false,
+        }
+    }
+
     pub(crate) fn gen_expr_post_increment(
         &self,
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((bindings, place)) = self.hoist_index_effects(operand, ctx) {
+            return format!("{{ {} {} }}", bindings, self.gen_expr_post_increment(&place, ctx));
+        }
         if let HirExpression::Variable(var_name) = operand {
             if let Some(var_type) = ctx.get_type(var_name) {
                 if matches!(var_type, HirType::StringReference | HirType::StringLiteral) {
@@ -390,6 +468,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((bindings, place)) = self.hoist_index_effects(operand, ctx) {
+            return format!("{{ {} {} }}", bindings, self.gen_expr_pre_increment(&place, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
@@ -422,6 +503,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((bindings, place)) = self.hoist_index_effects(operand, ctx) {
+            return format!("{{ {} {} }}", bindings, self.gen_expr_post_decrement(&place, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
@@ -454,6 +538,9 @@ impl CodeGenerator {
         operand: &HirExpression,
         ctx: &TypeContext,
     ) -> String {
+        if let Some((bindings, place)) = self.hoist_index_effects(operand, ctx) {
+            return format!("{{ {} {} }}", bindings, self.gen_expr_pre_decrement(&place, ctx));
+        }
         if let HirExpression::Dereference(inner) = operand {
             if let HirExpression::Variable(var_name) = &**inner {
                 if ctx.is_pointer(var_name) {
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index f24c20e..1840010 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -74,6 +74,17 @@ impl CodeGenerator {
                     ctx,
                     return_type,
                 ),
+            HirStatement::DerefAssignment { .. }
+            | HirStatement::ArrayIndexAssignment { .. }
+            | HirStatement::FieldAssignment { .. }
+                if self.hoist_update(stmt, ctx).is_some() =>
+            {
+                // `t[i++] op= e` evaluates the place once
+                let (bindings, update) = self.hoist_update(stmt, ctx).expect("just checked");
+                let code =
+                    self.generate_statement_with_context(&update, function_name, ctx, return_type);
+                format!("{{ {} {} }}", bindings, code)
+            }
             HirStatement::DerefAssignment { target, value } => {
                 self.generate_deref_assignment_statement(target, value, ctx)
             }
@@ -963,6 +974,57 @@ impl CodeGenerator {
         code
     }
 
+    /// An update of a place whose indices have effects, with those indices bound beforehand.
+    fn hoist_update(
+        &self,
+        stmt: &HirStatement,
+        ctx: &TypeContext,
+    ) -> Option<(String, HirStatement)> {
+        let value = match stmt {
+            HirStatement::DerefAssignment { value, .. }
+            | HirStatement::ArrayIndexAssignment { value, .. }
+            | HirStatement::FieldAssignment { value, .. } => value,
+            _ => return None,
+        };
+        let HirExpression::BinaryOp { op, left, right } = value else { return None };
+        let updates_left = match (stmt, &**left) {
+            (HirStatement::DerefAssignment { target, .. }, left) => target == left,
+            (
+                HirStatement::ArrayIndexAssignment { array, index, .. },
+                HirExpression::ArrayIndex { array: a, index: i },
+            ) => array == a && index == i,
+            (
+                HirStatement::FieldAssignment { object, field, .. },
+                HirExpression::FieldAccess { object: o, field: f }
+                | HirExpression::PointerFieldAccess { pointer: o, field: f },
+            ) => *object == **o && field == f,
+            _ => false,
+        };
+        if !updates_left {
+            return None;
+        }
+        let (bindings, place) = self.hoist_index_effects(left, ctx)?;
+        let value = HirExpression::BinaryOp {
+            op: *op,
+            left: Box::new(place.clone()),
+            right: right.clone(),
+        };
+        let update = match (stmt, place) {
+            (HirStatement::DerefAssignment { .. }, target) => {
+                HirStatement::DerefAssignment { target, value }
+            }
+            (_, HirExpression::ArrayIndex { array, index }) => {
+                HirStatement::ArrayIndexAssignment { array, index, value }
+            }
+            (_, HirExpression::FieldAccess { object, field })
+            | (_, HirExpression::PointerFieldAccess { pointer: object, field }) => {
+                HirStatement::FieldAssignment { object: *object, field, value }
+            }
+            _ => return None,
+        };
+        Some((bindings, update))
+    }
+
     /// Generate a dereference assignment statement.
     fn generate_deref_assignment_statement(
         &self,
-- 
2.43.0


From 34f9e2f89ee26c0701ad66d3d5e03f7c27af7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:22 +0000
Subject: [PATCH 62/70] fix: start every unsafe audit from empty counts

---
 crates/decy-verify/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index c7a47f2..9e26054 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -142,6 +142,10 @@ impl UnsafeAuditor {
         // Store source code for line counting
         self.source_code = rust_code.to_string();
 
+        // Each audit reports on its own code only
+        self.unsafe_blocks.clear();
+        self.unsafe_lines = 0;
+
         // Count total lines
         self.total_lines = rust_code.lines().count();
 
-- 
2.43.0


From 36e758fd44bb2aeec7071bfaa5bc94634c0711ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:43 +0000
Subject: [PATCH 63/70] fix: recognise inline assembly in unsafe blocks

---
 crates/decy-verify/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 9e26054..3c6bd29 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -181,7 +181,7 @@ impl UnsafeAuditor {
                 "Consider safe alternatives like From/Into traits or checked conversions"
                     .to_string(),
             )
-        } else if block_str.contains("asm!") || block_str.contains("global_asm!") {
+        } else if block_str.contains("asm !") || block_str.contains("asm!") {
             (
                 UnsafePattern::Assembly,
                 15,
-- 
2.43.0


From 3b45086fbcc2ad4d00fd0471831428f241f5fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:55 +0000
Subject: [PATCH 64/70] fix: audit unsafe methods and unsafe blocks in macro
 arguments

---
 crates/decy-verify/src/lib.rs | 66 +++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/crates/decy-verify/src/lib.rs b/crates/decy-verify/src/lib.rs
index 3c6bd29..53c4e2f 100644
--- a/crates/decy-verify/src/lib.rs
+++ b/crates/decy-verify/src/lib.rs
@@ -36,7 +36,8 @@ pub mod diff_test;
 pub mod lock_verify;
 
 use anyhow::{Context, Result};
-use syn::{visit::Visit, Block, Expr, ExprUnsafe, ItemFn};
+use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use syn::{visit::Visit, Block, Expr, ExprUnsafe, ImplItemFn, ItemFn, Macro, TraitItemFn};
 
 /// Represents a single unsafe block found in Rust code
 #[derive(Debug, Clone, PartialEq)]
@@ -211,6 +212,39 @@ impl UnsafeAuditor {
         // Rough approximation: count statements and add braces
         block.stmts.len() + 2
     }
+
+    /// Record an unsafe function, counting its entire body as unsafe
+    fn record_unsafe_fn(&mut self, block: &Block) {
+        self.unsafe_lines += self.count_block_lines(block);
+
+        self.unsafe_blocks.push(UnsafeBlock {
+            line: 0,
+            confidence: 60,
+            pattern: UnsafePattern::Other,
+            suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
+        });
+    }
+
+    /// Find the unsafe blocks in the arguments of a macro, which syn leaves as tokens
+    fn visit_macro_tokens(&mut self, tokens: TokenStream) {
+        let mut tokens = tokens.into_iter().peekable();
+        while let Some(token) = tokens.next() {
+            match (&token, tokens.peek()) {
+                (TokenTree::Ident(ident), Some(TokenTree::Group(group)))
+                    if ident == "unsafe" && group.delimiter() == Delimiter::Brace =>
+                {
+                    let group = TokenTree::Group(group.clone());
+                    let block = TokenStream::from_iter([token, group]);
+                    if let Ok(block) = syn::parse2::<ExprUnsafe>(block) {
+                        tokens.next();
+                        self.visit_expr(&Expr::Unsafe(block));
+                    }
+                }
+                (TokenTree::Group(group), _) => self.visit_macro_tokens(group.stream()),
+                _ => {}
+            }
+        }
+    }
 }
 
 impl Default for UnsafeAuditor {
@@ -244,21 +278,31 @@ impl<'ast> Visit<'ast> for UnsafeAuditor {
     fn visit_item_fn(&mut self, func: &'ast ItemFn) {
         // Check if function is marked unsafe
         if func.sig.unsafety.is_some() {
-            // Unsafe function - count the entire body as unsafe
-            let body_lines = self.count_block_lines(&func.block);
-            self.unsafe_lines += body_lines;
-
-            self.unsafe_blocks.push(UnsafeBlock {
-                line: 0,
-                confidence: 60,
-                pattern: UnsafePattern::Other,
-                suggestion: "Unsafe function - review if entire function needs to be unsafe or just specific blocks".to_string(),
-            });
+            self.record_unsafe_fn(&func.block);
         }
 
         // Continue visiting the function body
         syn::visit::visit_item_fn(self, func);
     }
+
+    fn visit_impl_item_fn(&mut self, func: &'ast ImplItemFn) {
+        if func.sig.unsafety.is_some() {
+            self.record_unsafe_fn(&func.block);
+        }
+        syn::visit::visit_impl_item_fn(self, func);
+    }
+
+    fn visit_trait_item_fn(&mut self, func: &'ast TraitItemFn) {
+        if let (Some(_), Some(block)) = (&func.sig.unsafety, &func.default) {
+            self.record_unsafe_fn(block);
+        }
+        syn::visit::visit_trait_item_fn(self, func);
+    }
+
+    fn visit_macro(&mut self, mac: &'ast Macro) {
+        self.visit_macro_tokens(mac.tokens.clone());
+        syn::visit::visit_macro(self, mac);
+    }
 }
 
 /// Convenience function to audit Rust code
-- 
2.43.0


From 1666f892f9f9bf2922e42c2e155e03bb4d1208fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:19 +0000
Subject: [PATCH 65/70] fix: take the element count of malloc(sizeof(T) * n)
 from the right operand

---
 crates/decy-codegen/src/expr_gen/calls.rs | 29 +++++++++++++----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 14e01f2..8a0fad0 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -267,6 +267,17 @@ impl CodeGenerator {
         }
     }
 
+    /// Element count of an array allocation: `n` in both `n * sizeof(T)` and `sizeof(T) * n`.
+    fn malloc_element_count(size: &HirExpression) -> Option<&HirExpression> {
+        match size {
+            HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, right } => {
+                let sizeof_first = matches!(left.as_ref(), HirExpression::Sizeof { .. });
+                Some(if sizeof_first { right } else { left })
+            }
+            _ => None,
+        }
+    }
+
     pub(crate) fn gen_call_malloc(
         &self,
         arguments: &[HirExpression],
@@ -279,10 +290,8 @@ impl CodeGenerator {
             if let Some(HirType::Vec(elem_type)) = target_type {
                 let elem_type_str = Self::map_type(elem_type);
                 let default_val = Self::default_value_for_type(elem_type);
-                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
-                    &arguments[0]
-                {
-                    let count_code = self.generate_expression_with_context(left, ctx);
+                if let Some(count) = Self::malloc_element_count(&arguments[0]) {
+                    let count_code = self.generate_expression_with_context(count, ctx);
                     return format!("vec![{}; ({}) as usize]", default_val, count_code);
                 } else {
                     return format!(
@@ -304,10 +313,8 @@ impl CodeGenerator {
                 }
                 let elem_type_str = Self::map_type(inner);
                 let default_val = Self::default_value_for_type(inner);
-                if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
-                    &arguments[0]
-                {
-                    let count_code = self.generate_expression_with_context(left, ctx);
+                if let Some(count) = Self::malloc_element_count(&arguments[0]) {
+                    let count_code = self.generate_expression_with_context(count, ctx);
                     return format!(
                         "Box::leak(vec![{}; ({}) as usize].into_boxed_slice()).as_mut_ptr() as *mut {}",
                         default_val, count_code, elem_type_str
@@ -320,10 +327,8 @@ impl CodeGenerator {
                 }
             }
 
-            if let HirExpression::BinaryOp { op: BinaryOperator::Multiply, left, .. } =
-                &arguments[0]
-            {
-                let count_code = self.generate_expression_with_context(left, ctx);
+            if let Some(count) = Self::malloc_element_count(&arguments[0]) {
+                let count_code = self.generate_expression_with_context(count, ctx);
                 format!("vec![0i32; ({}) as usize]", count_code)
             } else {
                 format!("Vec::<u8>::with_capacity(({}) as usize)", size_code)
-- 
2.43.0


From 08072ae3af318f1a09c297ba42f43acef8b17732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 66/70] fix: allocate calloc(n, sizeof(struct)) as an array

---
 crates/decy-codegen/src/expr_gen/misc.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 95d9cec..175dc42 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -739,9 +739,11 @@ impl CodeGenerator {
     /// This distinguishes single-element allocations (use Box) from array allocations (use Vec).
     pub(crate) fn is_malloc_array_pattern(expr: &HirExpression) -> bool {
         match expr {
-            HirExpression::FunctionCall { function, arguments }
-                if function == "malloc" || function == "calloc" =>
-            {
+            // calloc(n, sizeof(T)) allocates an array unless n is literally one
+            HirExpression::FunctionCall { function, arguments } if function == "calloc" => {
+                !matches!(arguments.first(), None | Some(HirExpression::IntLiteral(1)))
+            }
+            HirExpression::FunctionCall { function, arguments } if function == "malloc" => {
                 arguments
                     .first()
                     .map(|arg| {
-- 
2.43.0


From 5972aa09124796718815c143fbb42b2bba148a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:34 +0000
Subject: [PATCH 67/70] fix: pass a boxed struct to reference parameters

---
 crates/decy-codegen/src/expr_gen/calls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/decy-codegen/src/expr_gen/calls.rs b/crates/decy-codegen/src/expr_gen/calls.rs
index 8a0fad0..d8dcd09 100644
--- a/crates/decy-codegen/src/expr_gen/calls.rs
+++ b/crates/decy-codegen/src/expr_gen/calls.rs
@@ -785,6 +785,9 @@ impl CodeGenerator {
                                     "pointer is non-null and valid for the duration of the call",
                                 ));
                             }
+                            if matches!(var_type, Some(HirType::Box(_))) {
+                                return Some(format!("&mut {}", var_name));
+                            }
                         }
                     }
 
-- 
2.43.0


From 7e8a459eb84b5562ff9070597a19b6fa290a4798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:34 +0000
Subject: [PATCH 68/70] fix: parenthesise branches that begin with a commented
 unsafe block

---
 crates/decy-codegen/src/expr_gen/misc.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 175dc42..5a7d8d3 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -571,8 +571,10 @@ impl CodeGenerator {
     /// Code of an expression that stands at the start of a block or statement, where
     /// `unsafe { x } + y` would be two statements.
     pub(crate) fn as_block_member(expr: &HirExpression, code: String) -> String {
-        let starts_with_block =
-            code.starts_with('{') || code.starts_with("unsafe {") || code.starts_with("if ");
+        let starts_with_block = code.starts_with('{')
+            || code.starts_with("unsafe {")
+            || code.starts_with("/* SAFETY")
+            || code.starts_with("if ");
         if starts_with_block && matches!(expr, HirExpression::BinaryOp { .. }) {
             format!("({})", code)
         } else {
-- 
2.43.0


From 3107d0d680a098ab369697b138ded1c1ecef8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:34 +0000
Subject: [PATCH 69/70] fix: dereference fields that hold raw pointers

---
 crates/decy-codegen/src/expr_gen/misc.rs | 10 +++++++++-
 crates/decy-codegen/src/stmt_gen.rs      |  3 +--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/decy-codegen/src/expr_gen/misc.rs b/crates/decy-codegen/src/expr_gen/misc.rs
index 5a7d8d3..e3f2afb 100644
--- a/crates/decy-codegen/src/expr_gen/misc.rs
+++ b/crates/decy-codegen/src/expr_gen/misc.rs
@@ -15,7 +15,15 @@ impl CodeGenerator {
         let escaped_field = escape_rust_keyword(field);
         match pointer {
             HirExpression::PointerFieldAccess { .. } | HirExpression::FieldAccess { .. } => {
-                format!("{}.{}", self.generate_expression_with_context(pointer, ctx), escaped_field)
+                let ptr_code = self.generate_expression_with_context(pointer, ctx);
+                // A field that holds a raw pointer is dereferenced explicitly
+                if matches!(ctx.infer_expression_type(pointer), Some(HirType::Pointer(_))) {
+                    return Self::unsafe_block(
+                        &format!("(*{}).{}", ptr_code, escaped_field),
+                        "pointer is non-null and points to valid struct",
+                    );
+                }
+                format!("{}.{}", ptr_code, escaped_field)
             }
             _ => {
                 let ptr_code = self.generate_expression_with_context(pointer, ctx);
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 1840010..0a7a4bf 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -1229,8 +1229,7 @@ impl CodeGenerator {
         let value_code = self.generate_expression_with_target_type(value, ctx, field_type.as_ref());
 
         // DECY-119: Check if object is a raw pointer - need unsafe deref
-        let obj_type =
-            if let HirExpression::Variable(name) = object { ctx.get_type(name) } else { None };
+        let obj_type = ctx.infer_expression_type(object);
 
         if matches!(obj_type, Some(HirType::Pointer(_))) {
             // Raw pointer field assignment needs unsafe block
-- 
2.43.0


From 11aceb2103385e552db96e507834e948408fd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:34 +0000
Subject: [PATCH 70/70] fix: update fields behind raw pointers inside an unsafe
 block and convert the value

---
 crates/decy-codegen/src/lib.rs      |  6 +++---
 crates/decy-codegen/src/stmt_gen.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/decy-codegen/src/lib.rs b/crates/decy-codegen/src/lib.rs
index 48c59a2..6fe8e53 100644
--- a/crates/decy-codegen/src/lib.rs
+++ b/crates/decy-codegen/src/lib.rs
@@ -199,12 +199,12 @@ impl TypeContext {
     fn get_field_type(&self, object_expr: &HirExpression, field_name: &str) -> Option<HirType> {
         // Get the type of the object expression
         let object_type = match object_expr {
-            HirExpression::Variable(var_name) => self.get_type(var_name)?,
-            _ => return None,
+            HirExpression::Variable(var_name) => self.get_type(var_name)?.clone(),
+            _ => self.infer_expression_type(object_expr)?,
         };
 
         // Extract the struct name from the type
-        let struct_name = match object_type {
+        let struct_name = match &object_type {
             HirType::Struct(name) => name,
             HirType::Pointer(inner) => {
                 // If it's a pointer to a struct, dereference it
diff --git a/crates/decy-codegen/src/stmt_gen.rs b/crates/decy-codegen/src/stmt_gen.rs
index 0a7a4bf..d900e35 100644
--- a/crates/decy-codegen/src/stmt_gen.rs
+++ b/crates/decy-codegen/src/stmt_gen.rs
@@ -1042,8 +1042,16 @@ impl CodeGenerator {
                 | HirExpression::FieldAccess { .. }
                 | HirExpression::ArrayIndex { .. }
         ) {
+            // A field behind a raw pointer is assigned inside one unsafe block
+            if let HirExpression::PointerFieldAccess { pointer, field } = target {
+                if matches!(ctx.infer_expression_type(pointer), Some(HirType::Pointer(_))) {
+                    return self.generate_field_assignment_statement(pointer, field, value, ctx);
+                }
+            }
             let target_code = self.generate_expression_with_context(target, ctx);
-            let value_code = self.generate_expression_with_context(value, ctx);
+            let target_type = ctx.infer_expression_type(target);
+            let value_code =
+                self.generate_expression_with_target_type(value, ctx, target_type.as_ref());
             if Self::is_rooted_in_global(target, ctx) {
                 return format!(
                     "unsafe {{ {} = {}; }}",
-- 
2.43.0

