From 0390be7451a4d7e28bfc39168d7aefc89380ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 01/48] fix: statements need a semicolon or a place where one
 is inserted

`var a b`, `break a b`, `return a b` and the like were accepted as two
statements on one line.
---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..748b495 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -188,7 +188,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -200,7 +200,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -220,7 +220,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -249,7 +249,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -264,7 +264,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..4fc3182 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -21,7 +21,7 @@ where
         } else {
             self.parse_variable_declarations()?
         };
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From ad2b1d1f768b304409f71e384b216733df1d4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 02/48] fix: a module specifier that is not a string is an
 error, not a panic

---
 parser/src/module.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..0c02053 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -201,6 +201,10 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
+        if !self.current_matches_string_literal() {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
         let module_name = self
             .parse_literal()?
             .unwrap_literal()
-- 
2.43.0


From 61db7acb9e01581ef1066a8349d764560dc6b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 03/48] fix: `??` cannot be mixed with `||` and `&&` without
 parentheses

---
 parser/src/binary_expr.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index ab3bfa2..7edc788 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -16,13 +16,27 @@ where
 {
     /// Parses the `ShortCircuitExpression` production.
     pub(super) fn parse_short_circuit_expr(&mut self) -> Result<Expr> {
-        self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
-            if token_matches!(token, punct!("??")) {
-                Some(logical_op!("??"))
-            } else {
-                None
+        let span_start = self.position();
+        let mut expr = self.parse_logical_or_expr()?;
+
+        // `??` can not be mixed with `||` or `&&`, its operands are `BitwiseORExpression`s.
+        if matches!(expr, Expr::Logical(_)) {
+            return Ok(expr);
+        }
+
+        while self.maybe_consume(&punct!("??"))? {
+            let right = self.parse_bitwise_or_expr()?;
+            let span = self.span_from(span_start);
+            expr = ExprLogical {
+                span,
+                left: Box::new(expr),
+                right: Box::new(right),
+                operator: logical_op!("??"),
             }
-        })
+            .into();
+        }
+
+        Ok(expr)
     }
 
     /// Parses the `LogicalORExpression` production.
-- 
2.43.0


From 028fe9962310e1fde29e9d06ab973bf79608fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 04/48] fix: the base of `**` cannot be a unary expression

---
 parser/src/binary_expr.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index 7edc788..984b958 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -150,13 +150,26 @@ where
 
     /// Parses the `ExponentiationExpression` production.
     fn parse_exponentiation_expr(&mut self) -> Result<Expr> {
-        self.parse_binary_expr(Self::parse_unary_expr, |token| {
-            if token_matches!(token, punct!("**")) {
-                Some(binary_op!("**"))
-            } else {
-                None
+        let span_start = self.position();
+        let mut expr = self.parse_unary_expr()?;
+
+        // The base must be an `UpdateExpression`, a unary expression is not allowed.
+        let mut is_base = !matches!(expr, Expr::Unary(_) | Expr::Await(_));
+        while is_base && self.maybe_consume(&punct!("**"))? {
+            let right = self.parse_unary_expr()?;
+            is_base = !matches!(right, Expr::Unary(_) | Expr::Await(_));
+
+            let span = self.span_from(span_start);
+            expr = ExprBinary {
+                span,
+                left: Box::new(expr),
+                right: Box::new(right),
+                operator: binary_op!("**"),
             }
-        })
+            .into();
+        }
+
+        Ok(expr)
     }
 
     /// All binary expressions are parsed the same way, they are broken up into multiple productions
-- 
2.43.0


From 2adbccd1a1196c1dec3fd3fa26881e99a3efb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 05/48] fix: statements can start with `import()` and
 `import.meta`

---
 parser/src/stmt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 748b495..c760544 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -76,7 +76,9 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            token_matches!(keyword!("import"))
+                if !self.peek_matches(&punct!("(")) && !self.peek_matches(&punct!(".")) =>
+            {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
-- 
2.43.0


From f270d4bfff03062c8da3197b49f25a7e48ce6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 06/48] fix: calls and members can follow `super()` and
 `import()`

---
 parser/src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..4cd25c3 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -462,13 +462,9 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
-            _ => {
-                let span_start = self.position();
-                let expr = self.parse_new_or_member_expr()?;
-                let call_expr = self.parse_recursive_call_expression(span_start, expr)?;
-                Ok(call_expr)
-            }
+            _ => self.parse_new_or_member_expr(),
         }?;
+        let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
             // The NewExpression production handles nested news and is not included in the
-- 
2.43.0


From 02de0d01d050a56fad26cc18b91724ddaca5fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 07/48] fix: property names in optional chains can be reserved
 words

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..f4aff9d 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From 0931c1709efd01d50defb336b5496c7104ff9518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 08/48] fix: calls can be tagged with templates that have
 substitutions

---
 parser/src/expr.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 4cd25c3..e841270 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -493,9 +493,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From 6c7a107775b2e06d92faa6234e1527bcde18d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 09/48] fix: only `new` without arguments cannot be the base of
 an optional chain

---
 parser/src/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index e841270..fa9a792 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -467,9 +467,9 @@ where
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
-            // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            // The NewExpression production handles `new` without arguments and is not included in
+            // the OptionalExpression production as a base for the chain.
+            if matches!(&expr, Expr::New(new) if new.arguments_span.is_none()) {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 52422721b6976efdaa462cd0eacc95c7b55e407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 10/48] fix: `async` is an identifier unless a function or
 arrow follows on its line

`async` alone, `async = 1`, `async(x).y` and `async(x) + 1` were rejected,
`async({a = 1}) => a` too, and a line terminator after `async` was not seen.
---
 parser/src/cover.rs  | 12 +++++++++++-
 parser/src/expr.rs   | 30 +++++++++++++-----------------
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 4 files changed, 36 insertions(+), 23 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..f4302fa 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -46,13 +46,23 @@ where
     }
 
     /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// If an arrow function is parsed, it is returned as an error because it is only valid
+    /// higher up in the tree. The error must be caught higher up.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
         match self.parse_covered_call_expression() {
             Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
             Ok(_) => {
                 self.reader.rewind_to(&start_token)?;
-                self.parse_async_arrow_function_expr()
+                Err(Error::arrow_function_not_allowed(
+                    self.parse_async_arrow_function_expr()?,
+                ))
+            }
+            Err(error) if error.kind() == &InitializedNameNotAllowed => {
+                self.reader.rewind_to(&start_token)?;
+                Err(Error::arrow_function_not_allowed(
+                    self.parse_async_arrow_function_expr()?,
+                ))
             }
             error => error,
         }
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index fa9a792..cdfc5ba 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,7 +59,11 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
+            token_matches!(ok: keyword!("async"))
+                if self.peek_is_identifier() && !self.followed_by_new_line() =>
+            {
+                self.parse_async_arrow_function_expr()
+            }
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
@@ -181,21 +185,6 @@ where
         }
     }
 
-    /// Parses the part of `AssignmentExpression` that starts with the `async` keyword.
-    /// Examples:
-    /// 1. `async => {}` // Non async arrow function with the name async.
-    /// 2. `async a => {}` // Async arrow function without parameter parentheses.
-    /// 3. `async(a) => {}` // Async arrow function with parentheses.
-    /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
-    fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
-        match self.peek() {
-            token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
-            _ => self.parse_conditional_expr(),
-        }
-    }
-
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
@@ -462,6 +451,11 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
+            {
+                self.parse_cover_call_or_async_arrow_head()
+            }
             _ => self.parse_new_or_member_expr(),
         }?;
         let expr = self.parse_recursive_call_expression(span_start, expr)?;
@@ -756,7 +750,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
diff --git a/parser/src/module.rs b/parser/src/module.rs
index 0c02053..9ab9414 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index c760544..4280e20 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From ed6d3b815aed9fd747ea9202c79ae3b093596583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:29 +0000
Subject: [PATCH 11/48] fix: properties and methods can be named `get`, `set`,
 `async` and `static`

---
 parser/src/literal.rs | 10 +++++++---
 parser/src/method.rs  |  4 +++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..3e8a0b9 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -262,9 +262,13 @@ where
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
-            token_matches!(ok: keyword!("static")) => true,
-            token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
-            token_matches!(ok: keyword!("get") | keyword!("set")) => true,
+            token_matches!(
+                ok: keyword!("static") | keyword!("async") | keyword!("get") | keyword!("set")
+            ) => {
+                !self.peek_matches(&punct!(","))
+                    && !self.peek_matches(&punct!("="))
+                    && !self.peek_matches(&punct!("}"))
+            }
             _ => self.peek_matches(&punct!("(")),
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..1b8dc51 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.followed_by_new_line() && !self.peek_matches(&punct!("(")) =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 74e2debea79a727e6bdf4f6097133f4241eba5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 12/48] fix: methods with computed names in object literals can
 use `super`

---
 parser/src/literal.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 3e8a0b9..a50d13b 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -238,8 +238,13 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
-                .map(PropertyDefinition::Method)
+            self.with_context(
+                self.context
+                    .with_in_method(true)
+                    .with_super_call_allowed(false),
+            )
+            .parse_method(span_start, false, name, MethodKind::Method)
+            .map(PropertyDefinition::Method)
         }
     }
 
-- 
2.43.0


From 82117c838c08e818c7c0df4876ab19bc0f64277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 13/48] fix: `yield` can stand alone before a comma or a colon

---
 parser/src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index cdfc5ba..f111aa2 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -813,5 +813,7 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
     }
 }
-- 
2.43.0


From 86548aa816bd447ed885bc84c912ec843e639a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 14/48] fix: elements of array assignment patterns are
 separated by commas

`for ([a b] of c);` was accepted.
---
 parser/src/assignment_pattern.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..93d8714 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,11 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    if !self.current_matches(&punct!(",")) && !self.current_matches(&punct!("]")) {
+                        let token = self.consume()?;
+                        return Err(Error::expected_other_token(token, &punct!(",")));
+                    }
                 }
             }
         }
-- 
2.43.0


From fe9b8fbc4b2b060712ec32bfb0773b80951b1603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 15/48] fix: `in` is an operator inside brackets and
 initialisers everywhere

It was not between `?` and `:`, in `with`, `let` and `const`, in literals,
templates, computed names and `import()` where the code around did not allow it.
---
 parser/src/assignment_pattern.rs |  5 ++++-
 parser/src/expr.rs               | 16 ++++++++++++----
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            |  3 ++-
 parser/src/member_access.rs      |  6 ++----
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 7 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index 93d8714..ed3f738 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -193,7 +193,10 @@ where
         let ident = self.parse_identifier()?;
         let initializer = self
             .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+            .then_try(|| {
+                self.with_context(self.context.with_in(true))
+                    .parse_initializer()
+            })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index f111aa2..6a490c3 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -278,7 +278,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -553,7 +555,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
@@ -744,8 +748,12 @@ where
             token_matches!(keyword!("true")) => self.consume_literal(Literal::Boolean(true))?,
             token_matches!(keyword!("false")) => self.consume_literal(Literal::Boolean(false))?,
             token_matches!(@literal) => self.parse_literal()?,
-            token_matches!(punct!("[")) => self.parse_array_literal()?,
-            token_matches!(punct!("{")) => self.parse_object_literal()?,
+            token_matches!(punct!("[")) => self
+                .with_context(self.context.with_in(true))
+                .parse_array_literal()?,
+            token_matches!(punct!("{")) => self
+                .with_context(self.context.with_in(true))
+                .parse_object_literal()?,
             token_matches!(keyword!("function")) => self.parse_function_expr()?,
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index a50d13b..2d3194b 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index f4aff9d..3257e00 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -137,9 +137,7 @@ where
                 Ok(MemberProperty::Ident(identifier))
             }
             token_matches!(ok: punct!("[")) => {
-                let member = self
-                    .with_context(self.context.with_in(true))
-                    .parse_computed_property()?;
+                let member = self.parse_computed_property()?;
                 Ok(MemberProperty::Expr(member.into()))
             }
             _ => unreachable!(),
@@ -148,7 +146,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 4280e20..202b7b2 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -304,7 +304,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 4fc3182..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From b4678e537499083d3e854abc0d86332978b4ca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 16/48] fix: the right side of `of` is not a sequence
 expression

---
 parser/src/iteration.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..c3e2344 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -173,7 +173,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From 7b2905942af51d43458f721e8236ebccff7798f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 17/48] fix: names of default exports

`export default class extends A {}` was rejected, and inside a default export
declarations without a name were accepted.
---
 parser/src/class.rs    | 4 +++-
 parser/src/function.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..5e7c77e 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -31,7 +31,9 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        if self.context.is_default
+            && (self.current_matches(&punct!("{")) || self.current_matches(&keyword!("extends")))
+        {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..b276f0a 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -272,7 +272,12 @@ where
         let is_strict = self.context.is_strict || directives.as_slice().contains_strict();
 
         let statements = self
-            .with_context(self.context.with_strict(is_strict).with_return(true))
+            .with_context(
+                self.context
+                    .with_strict(is_strict)
+                    .with_return(true)
+                    .with_default(false),
+            )
             .parse_function_body_stmt_list()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From 5f7b3c337ec93abd7b4b82250dc1d5eca67dfa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 18/48] fix: arrow functions in strict code are strict

---
 parser/src/function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index b276f0a..e9885f9 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -47,6 +47,7 @@ where
                 self.context
                     .reset_parameters()
                     .with_in(self.context.is_in)
+                    .with_strict(self.context.is_strict)
                     .with_await(asynchronous),
             )
             .parse_concise_body()?;
-- 
2.43.0


From db4453571911c3d287c311b09c99e289540b62af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 19/48] fix: module code is strict

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..17f1547 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -194,7 +194,8 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let strict_mode =
+            parser.source_type == SourceType::Module || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-- 
2.43.0


From 4fda82e73d1f203c1a8d072093db66bb1a77d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 20/48] fix: `with` is an error in strict code

---
 parser/src/stmt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 202b7b2..15307be 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -302,7 +302,14 @@ where
     fn parse_with_stmt(&mut self) -> Result<Stmt> {
         let span_start = self.position();
 
-        self.consume_assert(&keyword!("with"))?;
+        let with = self.consume_assert(&keyword!("with"))?;
+        if self.context.is_strict {
+            return Err(Error::syntax_error(
+                "`with` is not allowed in strict mode".to_owned(),
+                with.span,
+            ));
+        }
+
         self.consume_assert(&punct!("("))?;
         let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
-- 
2.43.0


From 27fba706b49814c9b8798871db1c3a3fac8c6a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 21/48] fix: parameters of arrow functions can end in a comma

---
 parser/src/cover.rs     | 9 +++++++++
 parser/src/error/mod.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index f4302fa..db6e6fb 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -40,6 +40,15 @@ where
                         self.parse_arrow_function_expr()?,
                     ))
                 }
+                // Formal parameters can end in a comma, a parenthesized expression cannot.
+                &UnexpectedToken(punct!(")"), _) => {
+                    self.reader.rewind_to(&start_token)?;
+                    match self.parse_arrow_function_expr() {
+                        Ok(arrow) => Err(Error::arrow_function_not_allowed(arrow)),
+                        Err(arrow_error) if arrow_error.is_beyond(&error) => Err(arrow_error),
+                        Err(_) => Err(error),
+                    }
+                }
                 _ => Err(error),
             },
         }
diff --git a/parser/src/error/mod.rs b/parser/src/error/mod.rs
index 9efbf36..3059b23 100644
--- a/parser/src/error/mod.rs
+++ b/parser/src/error/mod.rs
@@ -111,6 +111,11 @@ impl Error {
         &self.span
     }
 
+    /// Returns true if this error was found later in the source than `other`.
+    pub(crate) fn is_beyond(&self, other: &Error) -> bool {
+        self.kind == EndOfStream || self.span.start > other.span.start
+    }
+
     pub(crate) fn from_kind(kind: ErrorKind, span: Span) -> Error {
         Error { kind, span }
     }
-- 
2.43.0


From 1accf290e2004d7d1d6612f34c4a1e1a5b045d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 22/48] fix: traversal visits the alternate of a conditional,
 not its condition twice

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From 5f555021fa712097634a1f065fe15a4988d00b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:32 +0000
Subject: [PATCH 23/48] fix: traversal visits the namespace of an import, not
 its named imports twice

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From d66449d21136ce3b89fe6b5d4f477260738113cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 24/48] fix: traversal visits the names of an export in source
 order

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..027862c 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -518,8 +518,8 @@ generate_fold_and_visit! {
         }
 
         NamedExport: (enter: enter_named_export, exit: exit_named_export) {
-            name
             alias_of
+            name
         }
 
         NamedImport: (enter: enter_named_import, exit: exit_named_import) {
-- 
2.43.0


From 75a5a5156827da3716b130142440b9c139ec74b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 25/48] fix: traversal visits assignment patterns and for
 bindings

---
 ast/src/traverse/mod.rs | 50 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 027862c..1e66597 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -534,6 +540,46 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
+
+        ArrayAssignmentPattern: (
+            enter: enter_array_assignment_pattern,
+            exit: exit_array_assignment_pattern
+        ) {
+            elements
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        ObjectAssignmentPattern: (
+            enter: enter_object_assignment_pattern,
+            exit: exit_object_assignment_pattern
+        ) {
+            props
+            rest
+        }
+
+        SingleNameAssignmentProp: (
+            enter: enter_single_name_assignment_prop,
+            exit: exit_single_name_assignment_prop
+        ) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (
+            enter: enter_named_assignment_prop,
+            exit: exit_named_assignment_prop
+        ) {
+            name
+            value
+            initializer
+        }
     }
 }
-- 
2.43.0


From e6121e8846b5556bd74e2762f27f576a3adc347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:25 +0000
Subject: [PATCH 26/48] fix: assignment patterns and declarations in for heads
 are printed

---
 codegen/src/lib.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..37653f9 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -565,6 +565,9 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            if !matches!(node.left, ForDeclaration::Expr(_)) {
+                s.space();
+            }
             s.string("of");
             s.space();
 
@@ -576,6 +579,13 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        node.binding.traverse(self);
+        false
+    }
+
     fn exit_for_init(&mut self, node: &mut ForInit) {
         if matches!(node, ForInit::Declaration(_)) {
             // Variable statements ends with semicolon, don't want that inside for syntax.
@@ -590,6 +600,9 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.left.traverse(s);
 
+            if !matches!(node.left, ForDeclaration::Expr(_)) {
+                s.space();
+            }
             s.string("in");
             s.space();
 
@@ -1117,6 +1130,63 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            // An absent element stands for a comma.
+            let mut separated = true;
+            for element in &mut node.elements {
+                if !separated || element.is_none() {
+                    s.char(',');
+                    s.space();
+                }
+
+                element.traverse(s);
+                separated = element.is_none();
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                if !separated {
+                    s.char(',');
+                    s.space();
+                }
+
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_single_name_binding(&mut self, node: &mut SingleNameBinding) -> bool {
         node.ident.traverse(self);
         self.initializer(&mut node.initializer);
-- 
2.43.0


From fc9555798e7f52d69e55cf34123ac88ba4d4c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 27/48] fix: throw, do-while and export from statements are
 printed with a semicolon

---
 codegen/src/lib.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 37653f9..e730d32 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,7 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    pending_semicolon: Cell<bool>,
 }
 
 impl Index {
@@ -53,6 +54,7 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            pending_semicolon: Cell::new(false),
         }
     }
 
@@ -303,12 +305,17 @@ impl CodeGenerator<'_> {
 
     /// Add char to output.
     fn char(&mut self, ch: char) {
+        self.flush_semicolon(ch);
         self.indent();
         self.data.push(ch);
     }
 
     /// Add string to output.
     fn string(&mut self, str: &str) {
+        if let Some(first) = str.chars().next() {
+            self.flush_semicolon(first);
+        }
+
         self.indent();
 
         // Make sure we separate keywords
@@ -319,6 +326,21 @@ impl CodeGenerator<'_> {
         self.data.push_str(str);
     }
 
+    /// Ends a statement. If minified, the semicolon is left out unless something follows.
+    fn end_statement(&mut self) {
+        if self.ctx.minified {
+            self.index.pending_semicolon.replace(true);
+        } else {
+            self.char(';');
+        }
+    }
+
+    fn flush_semicolon(&mut self, next: char) {
+        if self.index.pending_semicolon.take() && next != '}' {
+            self.data.push(';');
+        }
+    }
+
     /// Adds formatting space.
     fn space(&mut self) {
         if !self.ctx.minified {
@@ -463,6 +485,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.end_statement();
         false
     }
 
@@ -638,6 +661,7 @@ impl Visitor for CodeGenerator<'_> {
         self.parenthesize('(', false, |s| {
             node.test.traverse(s);
         });
+        self.end_statement();
 
         false
     }
@@ -915,6 +939,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.end_statement();
         false
     }
 
-- 
2.43.0


From 8970d2bfd268646f0fce70f93b84e83e578f2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:32 +0000
Subject: [PATCH 28/48] fix: the semicolon of an empty statement is not left
 out

---
 codegen/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index e730d32..6ee02aa 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -47,6 +47,7 @@ struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
     pending_semicolon: Cell<bool>,
+    last_empty_statement: Cell<usize>,
 }
 
 impl Index {
@@ -55,6 +56,7 @@ impl Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
             pending_semicolon: Cell::new(false),
+            last_empty_statement: Cell::new(0),
         }
     }
 
@@ -289,6 +291,11 @@ impl CodeGenerator<'_> {
         false
     }
 
+    /// Remove the last semicolon, unless it is a statement of its own.
+    fn remove_last_semicolon(&mut self) -> bool {
+        self.index.last_empty_statement.get() != self.pos() && self.remove_last(';')
+    }
+
     fn last(&self) -> Option<char> {
         self.data.chars().last()
     }
@@ -364,7 +371,7 @@ impl CodeGenerator<'_> {
 
         if self.ctx.minified {
             // No ';' is necessary before a '}'.
-            self.remove_last(';');
+            self.remove_last_semicolon();
         }
 
         self.char('}');
@@ -415,7 +422,7 @@ impl CodeGenerator<'_> {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
+        if self.ctx.minified && self.remove_last_semicolon() && matches!(self.last(), Some(')')) {
             // Don't remove semi colon if that render the last char a ')' since that could
             // result in invalid code like `for(true)`, `if(true)`, ...
             self.char(';');
@@ -1060,6 +1067,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_empty_statement(&mut self, _node: &mut StmtEmpty) -> bool {
         self.char(';');
+        self.index.last_empty_statement.replace(self.pos());
         false
     }
 
-- 
2.43.0


From 300a0a613f367d55b2e6a16cda85e674e99be372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:50 +0000
Subject: [PATCH 29/48] fix: operators and identifiers with other than
 alphanumeric characters are not merged

---
 codegen/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 6ee02aa..684994b 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -408,15 +408,24 @@ impl CodeGenerator<'_> {
         self.data.push_str(&" ".repeat(self.ctx.indentation()));
     }
 
-    /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
+    /// Check if a space must be added before adding str to avoid merging keywords, identifiers or
+    /// operators.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
-            .chars()
-            .next()
-            .map(char::is_alphanumeric)
-            .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        let (last, first) = match (self.last(), str.chars().next()) {
+            (Some(last), Some(first)) => (last, first),
+            _ => return false,
+        };
+
+        match (last, first) {
+            ('+', '+') | ('-', '-') | ('/', '/') => true,
+            // Would start a HTML like comment.
+            ('!', '-') => str == "--" && self.data.ends_with("<!"),
+            _ => Self::is_word_part(last) && Self::is_word_part(first),
+        }
+    }
+
+    fn is_word_part(ch: char) -> bool {
+        ch.is_alphanumeric() || matches!(ch, '$' | '_' | '\u{200c}' | '\u{200d}')
     }
 }
 
-- 
2.43.0


From 33cfa83c2cf8f1374de537f27a77d4c5690d017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 30/48] fix: a character that is not ASCII ends where the next
 one starts

---
 common/src/io/char_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/src/io/char_reader.rs b/common/src/io/char_reader.rs
index 8251a25..324a535 100644
--- a/common/src/io/char_reader.rs
+++ b/common/src/io/char_reader.rs
@@ -35,8 +35,12 @@ impl PeekRead<char> for CharIndices<'_> {
     type Error = Error;
 
     fn next(&mut self) -> Result<(usize, char), Self::Error> {
+        // A character ends where the next one starts.
         Iterator::next(self)
-            .map(|(pos, c)| (pos + c.len_utf16(), c))
+            .map(|(pos, c)| match Iterator::next(&mut self.clone()) {
+                Some((next_pos, _)) => (next_pos, c),
+                None => (pos + c.len_utf16(), c),
+            })
             .ok_or(EndOfStream)
     }
 }
-- 
2.43.0


From 5edbbb5ebae1fe8f7ed79ed928b130cf92a3ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 31/48] fix: span of the error for export let without a binding

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index 9ab9414..5a80c8c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -103,7 +103,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From a80149cd0adbc5552d4bb70c00765fe9b2ef715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 32/48] fix: a period after an integer is separated from it

---
 codegen/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 684994b..f64126e 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -48,6 +48,7 @@ struct Index {
     last_block_start: Cell<usize>,
     pending_semicolon: Cell<bool>,
     last_empty_statement: Cell<usize>,
+    last_integer: Cell<usize>,
 }
 
 impl Index {
@@ -57,6 +58,7 @@ impl Index {
             last_block_start: Cell::new(0),
             pending_semicolon: Cell::new(false),
             last_empty_statement: Cell::new(0),
+            last_integer: Cell::new(0),
         }
     }
 
@@ -793,6 +795,11 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_member_property(&mut self, node: &mut MemberProperty) -> bool {
         match node {
             MemberProperty::Ident(i) => {
+                if self.index.last_integer.get() == self.pos() {
+                    // The period would be part of the number.
+                    self.char(' ');
+                }
+
                 self.char('.');
                 i.traverse(self)
             }
@@ -1404,6 +1411,11 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+
+        if node.raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
+            self.index.last_integer.replace(self.pos());
+        }
+
         false
     }
 
-- 
2.43.0


From aabb0db5cd472cc68f6d88a23f53893c4bd382db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 33/48] fix: commas after absent array elements are printed as
 often as they mean

---
 codegen/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index f64126e..85b4900 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1159,8 +1159,11 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
+                if matches!(node.elements.last(), Some(Some(_))) {
                     s.char(',');
+                }
+
+                if !node.elements.is_empty() {
                     s.space();
                 }
 
@@ -1308,6 +1311,10 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            if matches!(node.elements.last(), Some(ArrayElement::Elision)) {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From 3f9029f488cdc8e7e8052eeb1f14faf1f3fbd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 34/48] fix: getters and setters are not printed as async or
 generator methods

---
 codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 85b4900..2537d9e 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -869,12 +869,14 @@ impl Visitor for CodeGenerator<'_> {
             self.space();
         }
 
-        if node.asynchronous {
+        let is_method = matches!(node.kind, MethodKind::Method);
+
+        if is_method && node.asynchronous {
             self.string("async");
             self.space();
         }
 
-        if node.generator {
+        if is_method && node.generator {
             self.char('*');
         }
 
-- 
2.43.0


From bc4846f36eb885c877c9d06d258ef0fcab24eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:06 +0000
Subject: [PATCH 35/48] fix: characters that need a backslash in strings and
 templates get one

---
 codegen/src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 2537d9e..698bca6 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -213,7 +213,14 @@ impl<'a> CodeGenerator<'a> {
     #[inline]
     fn quote(&mut self, delimiter: char, string: &str) {
         self.char(delimiter);
-        self.string(string);
+        for ch in string.chars() {
+            // The value is what the source is without its escaping backslashes.
+            if ch == delimiter || matches!(ch, '\\' | '\n' | '\r' | '\u{2028}' | '\u{2029}') {
+                self.data.push('\\');
+            }
+
+            self.data.push(ch);
+        }
         self.char(delimiter);
     }
 
@@ -1332,10 +1339,17 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.string(str);
+                for (i, ch) in str.char_indices() {
+                    // The value is what the source is without its escaping backslashes.
+                    if matches!(ch, '`' | '\\') || str[i..].starts_with("${") {
+                        self.data.push('\\');
+                    }
+
+                    self.data.push(ch);
+                }
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                self.data.push_str("${");
                 expr.traverse(self);
                 self.char('}');
             }
-- 
2.43.0


From 3a94a5ca0133862856375e885d21e80940989e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 36/48] fix: a token after a substitution of a template is not
 first on its line because of the brace

---
 lexer/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..bfdd01c 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -399,11 +399,10 @@ impl<'a> Lexer<'a> {
         };
 
         let span = Span::new(span_start, self.reader.position());
-        Ok(Token {
-            span,
-            first_on_line: false,
-            value,
-        })
+        let token = Token::new(value, self.first_on_line, span);
+        self.first_on_line = false;
+
+        Ok(token)
     }
 
     /// Returns literal string and what ended it.
-- 
2.43.0


From c2a89f9fb44f6bb994f61bafd8cab023f8d85e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 37/48] fix: the state of the lexer is restored after an error

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index bfdd01c..790a426 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -559,10 +559,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From c8018edfaabba3180270c214fb1a2abcf6803338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 38/48] fix: regular expressions end at every line terminator,
 also inside a class

---
 lexer/src/regexp.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..a82517e 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -18,18 +18,14 @@ impl Lexer<'_> {
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start, c));
                 }
                 '/' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
                     result.push(self.reader.consume()?)
                 }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,19 +36,32 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start, c));
+                }
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
+                    result.push(self.reader.consume()?)
+                }
                 _ => {}
             }
         }
 
         Ok(result)
     }
+
+    fn unterminated_regexp(&self, span_start: usize, line_terminator: char) -> Error {
+        let span_end = self.reader.position() - line_terminator.len_utf8();
+        Error::syntax_error(
+            "Unterminated regular expression literal".to_owned(),
+            (span_start, span_end),
+        )
+    }
 }
-- 
2.43.0


From e68a390c63cc663f2e89c3dea60e4f2f4cfd534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 39/48] fix: only `<!--` starts an HTML like comment

---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 790a426..c1ba831 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.data[self.reader.position()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
-- 
2.43.0


From ec2a71b44b96b6e861294100c56d2e362f1a50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 40/48] fix: misplaced separators and digits after numbers are
 errors

---
 lexer/src/number.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..0796c0f 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -21,11 +21,19 @@ impl<'a> Lexer<'a> {
             _ => self.read_decimal_string()?,
         };
 
+        if matches!(self.reader.current(), Ok('0'..='9')) {
+            let position = self.reader.position();
+            return Err(Error::syntax_error(
+                "Invalid digit in number".to_owned(),
+                (position, position + 1),
+            ));
+        }
+
         if self
             .reader
             .current()
             .ok()
-            .map_or(false, CodePoint::is_start_of_identifier)
+            .map_or(false, |c| c == &'\\' || c.is_start_of_identifier())
         {
             let position = self.reader.position();
             return Err(Error::syntax_error(
@@ -133,6 +141,14 @@ impl<'a> Lexer<'a> {
         check: fn(&char) -> bool,
     ) -> Result<String> {
         let number_str = self.reader.read_while(|c| check(c) || c == &'_')?;
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.contains("__") {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From 41c2974928c2593680b1e6e4457415b8ae80e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 41/48] fix: escape sequences in templates keep their meaning

---
 codegen/src/lib.rs | 10 ++--------
 lexer/src/lib.rs   |  4 +---
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 698bca6..d7926b4 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1339,14 +1339,8 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                for (i, ch) in str.char_indices() {
-                    // The value is what the source is without its escaping backslashes.
-                    if matches!(ch, '`' | '\\') || str[i..].starts_with("${") {
-                        self.data.push('\\');
-                    }
-
-                    self.data.push(ch);
-                }
+                // The string is what the source is, including its escape sequences.
+                self.data.push_str(str);
             }
             TemplatePart::Expr(expr) => {
                 self.data.push_str("${");
diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index c1ba831..fdd73e6 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -422,9 +422,7 @@ impl<'a> Lexer<'a> {
             }
 
             escape = c == '\\' && !escape;
-            if !escape {
-                result.push(c);
-            }
+            result.push(c);
         }
     }
 
-- 
2.43.0


From a3fa9cd5a6547589b6cac2bcf5691214dc2e33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 42/48] fix: words are separated from a number or regular
 expression before them

---
 codegen/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index d7926b4..60a8517 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -49,6 +49,7 @@ struct Index {
     pending_semicolon: Cell<bool>,
     last_empty_statement: Cell<usize>,
     last_integer: Cell<usize>,
+    last_literal: Cell<usize>,
 }
 
 impl Index {
@@ -59,6 +60,7 @@ impl Index {
             pending_semicolon: Cell::new(false),
             last_empty_statement: Cell::new(0),
             last_integer: Cell::new(0),
+            last_literal: Cell::new(0),
         }
     }
 
@@ -429,6 +431,8 @@ impl CodeGenerator<'_> {
             ('+', '+') | ('-', '-') | ('/', '/') => true,
             // Would start a HTML like comment.
             ('!', '-') => str == "--" && self.data.ends_with("<!"),
+            // Would be part of a number or the flags of a regular expression.
+            _ if self.index.last_literal.get() == self.pos() => Self::is_word_part(first),
             _ => Self::is_word_part(last) && Self::is_word_part(first),
         }
     }
@@ -1297,7 +1301,10 @@ impl Visitor for CodeGenerator<'_> {
             Literal::Null => self.string("null"),
             Literal::Boolean(true) => self.string("true"),
             Literal::Boolean(false) => self.string("false"),
-            Literal::Regexp(str) => self.string(str),
+            Literal::Regexp(str) => {
+                self.string(str);
+                self.index.last_literal.replace(self.pos());
+            }
             _ => return true,
         }
 
@@ -1428,6 +1435,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+        self.index.last_literal.replace(self.pos());
 
         if node.raw.chars().all(|c| c.is_ascii_digit() || c == '_') {
             self.index.last_integer.replace(self.pos());
-- 
2.43.0


From 00ad839050d9ac819bd85553613863cff2fd0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 43/48] fix: no space after `do` and `case` in minified code
 unless needed

---
 codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 60a8517..93e7af6 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -681,7 +681,8 @@ impl Visitor for CodeGenerator<'_> {
     }
 
     fn enter_do_while_stmt(&mut self, node: &mut StmtDoWhile) -> bool {
-        self.string("do ");
+        self.string("do");
+        self.space();
         node.body.traverse(self);
 
         self.string("while");
@@ -697,7 +698,8 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_switch_case(&mut self, node: &mut SwitchCase) -> bool {
         if node.test.is_some() {
-            self.string("case ");
+            self.string("case");
+            self.space();
             node.test.traverse(self);
         } else {
             self.string("default");
-- 
2.43.0


From 027c70436003f836541fd22a0c2d90590c12276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:46 +0000
Subject: [PATCH 44/48] fix: no space between a regular expression and a
 division in minified code

---
 codegen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 93e7af6..5d7e453 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -428,11 +428,11 @@ impl CodeGenerator<'_> {
         };
 
         match (last, first) {
+            // Would be part of a number or the flags of a regular expression.
+            _ if self.index.last_literal.get() == self.pos() => Self::is_word_part(first),
             ('+', '+') | ('-', '-') | ('/', '/') => true,
             // Would start a HTML like comment.
             ('!', '-') => str == "--" && self.data.ends_with("<!"),
-            // Would be part of a number or the flags of a regular expression.
-            _ if self.index.last_literal.get() == self.pos() => Self::is_word_part(first),
             _ => Self::is_word_part(last) && Self::is_word_part(first),
         }
     }
-- 
2.43.0


From 709f6dd85fb9f3e1e0e9d170dc1b545cbf743111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:34 +0000
Subject: [PATCH 45/48] fix: the format option takes one value

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57a349d..a180d3a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -51,7 +51,7 @@ fn get_arguments() -> Arguments {
                 .long("format")
                 .short('f')
                 .value_name("format")
-                .value_names(["pretty", "minified"]),
+                .value_parser(["pretty", "minified"]),
         )
         .arg(Arg::new("check").long("check").short('c').num_args(0))
         .get_matches();
-- 
2.43.0


From ed268cc82358d0a9bc566d1fc282454d2becdfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 46/48] fix: an unterminated regular expression that ends in a
 line separator at the end of the source is an error

---
 lexer/src/regexp.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index a82517e..1f81abf 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -14,12 +14,13 @@ impl Lexer<'_> {
         result.push(regexp_start);
 
         loop {
+            let span_end = self.reader.position();
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
                 c if c.is_ecma_line_terminator() => {
-                    return Err(self.unterminated_regexp(span_start, c));
+                    return Err(unterminated_regexp(span_start, span_end));
                 }
                 '/' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
@@ -39,12 +40,13 @@ impl Lexer<'_> {
     fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
+            let span_end = self.reader.position();
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
                 c if c.is_ecma_line_terminator() => {
-                    return Err(self.unterminated_regexp(span_start, c));
+                    return Err(unterminated_regexp(span_start, span_end));
                 }
                 ']' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
@@ -56,12 +58,11 @@ impl Lexer<'_> {
 
         Ok(result)
     }
+}
 
-    fn unterminated_regexp(&self, span_start: usize, line_terminator: char) -> Error {
-        let span_end = self.reader.position() - line_terminator.len_utf8();
-        Error::syntax_error(
-            "Unterminated regular expression literal".to_owned(),
-            (span_start, span_end),
-        )
-    }
+fn unterminated_regexp(span_start: usize, span_end: usize) -> Error {
+    Error::syntax_error(
+        "Unterminated regular expression literal".to_owned(),
+        (span_start, span_end),
+    )
 }
-- 
2.43.0


From eb6b63d7c74f8e7fb5684befa3bb665a1e841422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:27 +0000
Subject: [PATCH 47/48] fix: error reports show the lines, columns and marks of
 the error

The place is where the error starts, columns and marks count characters, every
line of the error is shown, and lines end at every line terminator.
---
 parser/src/error/emitter.rs | 142 ++++++++++++++++++++++++++----------
 1 file changed, 103 insertions(+), 39 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..bf3598e 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -3,6 +3,9 @@ use crate::Error;
 use fajt_ast::Span;
 use std::io::Write;
 
+/// Replacement for tabs in printed source.
+const TAB: &str = "    ";
+
 pub struct ErrorEmitter<'a, 'b, 'c, W> {
     filename: &'a str,
     source: &'b str,
@@ -19,14 +22,14 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
-        let line_span = self.get_line_boundaries(span);
-        let col_number = span.start - line_span.start + 1;
-        let line_number = self.get_line_number(span);
+        let span = self.character_span(&error.span);
+        let line_span = self.get_line_boundaries(span.start);
+        let col_number = self.source[line_span.start..span.start].chars().count() + 1;
+        let line_number = self.get_line_number(line_span.start);
 
         writeln!(self.out, "{}", error)?;
 
-        if span.is_empty() {
+        if error.span.is_empty() {
             writeln!(self.out, " --> {}", self.filename)?;
         } else {
             writeln!(
@@ -44,6 +47,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         Ok(())
     }
 
+    /// Prints every line the error spans over, with the erroneous part of each line marked.
+    /// `line_number` and `line_span` are of the first of those lines.
     pub fn emit_diagnostic(
         &mut self,
         error: &Error,
@@ -51,55 +56,102 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         line_number: usize,
         line_span: Span,
     ) -> std::io::Result<()> {
-        let line_number_str = line_number.to_string();
-        let padding = line_number_str.len() + 1;
+        let err_span = self.character_span(&error.span);
 
-        let err_span = error.span.translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
+        let mut lines = vec![line_span];
+        while let Some(next_start) = self.get_next_line_start(&lines[lines.len() - 1]) {
+            if next_start >= err_span.end {
+                break;
+            }
+            lines.push(self.get_line_boundaries(next_start));
+        }
+
+        let last_line_number = line_number + lines.len() - 1;
+        let padding = last_line_number.to_string().len() + 1;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
 
-        let line = &self.source[line_span.start..line_span.end];
-        let tab_indents = &line[0..err_span.start].matches('\t').count();
-        writeln!(
-            self.out,
-            "{:<pad$}| {}",
-            line_number_str,
-            line.replace('\t', "    "),
-            pad = padding
-        )?;
-        writeln!(
-            self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
-            "",
-            "",
-            "^",
-            label,
-            pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
-            err_mark = err_token_length
-        )?;
+        for (i, line_span) in lines.iter().enumerate() {
+            let is_last = i == lines.len() - 1;
+            let line = &self.source[line_span.start..line_span.end];
+            writeln!(
+                self.out,
+                "{:<pad$}| {}",
+                line_number + i,
+                line.replace('\t', TAB),
+                pad = padding
+            )?;
+
+            let mark_start = err_span.start.clamp(line_span.start, line_span.end);
+            let mark_end = err_span
+                .end
+                .clamp(mark_start, line_span.end.max(mark_start));
+            let err_offset = display_width(&self.source[line_span.start..mark_start]);
+            let err_mark = display_width(&self.source[mark_start..mark_end]);
+            if is_last {
+                writeln!(
+                    self.out,
+                    "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+                    "",
+                    "",
+                    "^",
+                    label,
+                    pad = padding,
+                )?;
+            } else if err_mark > 0 {
+                writeln!(
+                    self.out,
+                    "{:<pad$}| {:<err_offset$}{:^<err_mark$}",
+                    "",
+                    "",
+                    "",
+                    pad = padding,
+                )?;
+            }
+        }
 
         Ok(())
     }
 
-    fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+    /// The span with its ends moved to where characters of the source end.
+    fn character_span(&self, span: &Span) -> Span {
+        let to_boundary = |position: usize| {
+            (position..self.source.len())
+                .find(|position| self.source.is_char_boundary(*position))
+                .unwrap_or(self.source.len())
+        };
+        Span::new(to_boundary(span.start), to_boundary(span.end))
     }
 
-    fn get_line_boundaries(&self, span: &Span) -> Span {
-        let start = self.source[..span.start]
-            .rfind('\n')
-            .map(|pos| pos + 1)
+    fn get_line_number(&self, position: usize) -> usize {
+        let before = &self.source[..position];
+        before.matches(is_line_terminator).count() - before.matches("\r\n").count() + 1
+    }
+
+    /// Boundaries of the line `position` is on, without the line terminator.
+    fn get_line_boundaries(&self, position: usize) -> Span {
+        let start = self.source[..position]
+            .char_indices()
+            .rfind(|(_, c)| is_line_terminator(*c))
+            .map(|(pos, c)| pos + c.len_utf8())
             .unwrap_or(0);
-        let end = self.source[span.end..]
-            .find('\n')
-            .map(|pos| pos + span.end)
+        let end = self.source[position..]
+            .find(is_line_terminator)
+            .map(|pos| pos + position)
             .unwrap_or(self.source.len());
 
         Span::new(start, end)
     }
 
+    /// Start of the line after `line_span`, if there is one.
+    fn get_next_line_start(&self, line_span: &Span) -> Option<usize> {
+        let rest = &self.source[line_span.end..];
+        if rest.starts_with("\r\n") {
+            return Some(line_span.end + 2);
+        }
+        rest.chars().next().map(|c| line_span.end + c.len_utf8())
+    }
+
     fn get_kind_description(&self, error: &Error) -> String {
         match &error.kind {
             ErrorKind::ForbiddenIdentifier(keyword) => {
@@ -107,7 +159,10 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let token_value = {
+                    let span = self.character_span(&error.span);
+                    &self.source[span.start..span.end]
+                };
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
@@ -121,3 +176,12 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         }
     }
 }
+
+/// Width of the text when tabs are replaced by `TAB`.
+fn display_width(text: &str) -> usize {
+    text.chars().count() + text.matches('\t').count() * (TAB.len() - 1)
+}
+
+fn is_line_terminator(c: char) -> bool {
+    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
+}
-- 
2.43.0


From 91b50cb9d4d90eba60c361de101047a76f911e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:23 +0000
Subject: [PATCH 48/48] fix: the error for a template expression that is not
 closed covers the whole character

---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index fdd73e6..4ae7fed 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -386,7 +386,7 @@ impl<'a> Lexer<'a> {
         if start != '}' {
             return Err(Error::syntax_error(
                 "Expected '}' in template expression".to_owned(),
-                (span_start, span_start + 1),
+                (span_start, span_start + start.len_utf8()),
             ));
         }
 
-- 
2.43.0

