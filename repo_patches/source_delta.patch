From 2f5fae355ef54965d64021bc3caaa3297eae2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 1/8] fix: do not try the separator once a repetition has
 reached its upper bound

`e ** <,n> sep` tried the separator after the n-th element although it could
not be followed by another one, so the separator (or a failure inside it, further
to the right) was reported as expected.
---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index 326fa53..a4d8fa6 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -733,8 +733,8 @@ fn compile_expr(context: &Context, e: &SpannedExpr, result_used: bool) -> TokenS
                 loop {
                     let __pos = __repeat_pos;
 
-                    #match_sep
                     #max_check
+                    #match_sep
 
                     let __step_res = #inner;
                     match __step_res {
-- 
2.43.0


From 93391d91b4249e01a7f3f79ffbfc2f81bde9a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 2/8] fix: check loops inside rule arguments for nullable
 bodies

A repetition written inside an argument (`foo(<("a"?)*>)`) was accepted although
it loops forever as soon as the argument is used.
---
 peg-macros/analysis.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 0e2409a..228ddf7 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -221,7 +221,13 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
-            RuleExpr(ref rule_ident, _, _) => {
+            RuleExpr(ref rule_ident, _, ref rule_args) => {
+                for arg in rule_args {
+                    if let RuleArg::Peg(ref expr) = arg {
+                        self.walk_expr(expr);
+                    }
+                }
+
                 let name = rule_ident.to_string();
                 *self.rule_nullability.get(&name).unwrap_or(&false)
             }
-- 
2.43.0


From 2f7c11eec8654581677783b86518638e499bea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 3/8] fix: detect left recursion through the separator of a
 nullable repetition

`rule a() = ("x"?) **<1,2> a()` recurses into `a` at the same position once the
element has matched nothing, but was accepted.
---
 peg-macros/analysis.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 228ddf7..cfa31dd 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -138,8 +138,16 @@ impl<'a> LeftRecursionVisitor<'a> {
                 true
             }
 
-            Repeat { ref inner, ref bound, .. } => {
+            Repeat { ref inner, ref bound, ref sep } => {
                 let inner_nullable = self.walk_expr(inner);
+
+                // If an element can be empty, the separator is reached without consuming input
+                if inner_nullable {
+                    if let Some(ref sep) = sep {
+                        self.walk_expr(sep);
+                    }
+                }
+
                 inner_nullable | !bound.has_lower_bound()
             }
 
-- 
2.43.0


From 919695cf28210430fcf1b2e69864bd95c1cbbf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 4/8] fix: do not mistake a rule parameter for the rule of the
 same name in the analysis

A call of a parameter was analysed as a call of the grammar rule with the same
name, which rejected valid grammars as left recursive or looping.
---
 peg-macros/analysis.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index cfa31dd..4abc7dd 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -1,4 +1,4 @@
-use proc_macro2::Span;
+use proc_macro2::{Ident, Span};
 use std::collections::HashMap;
 
 use crate::ast::*;
@@ -27,12 +27,19 @@ pub fn check<'a>(grammar: &'a Grammar) -> GrammarAnalysis<'a> {
     }
 }
 
+/// Test if a name used as a rule refers to a parameter, which takes precedence
+/// over a rule of the same name. Nothing is known about the argument.
+fn is_param(params: &[RuleParam], name: &Ident) -> bool {
+    params.iter().any(|param| param.name == *name)
+}
+
 /// Check for infinite loops in the form of left recursion.
 ///
 /// If a PEG expression recurses without first consuming input, it will
 /// recurse until the stack overflows.
 struct LeftRecursionVisitor<'a> {
     stack: Vec<String>,
+    params: &'a [RuleParam],
     rules: &'a HashMap<String, &'a Rule>,
     errors: Vec<LeftRecursionError>,
 }
@@ -52,11 +59,12 @@ impl LeftRecursionError {
 }
 
 impl<'a> LeftRecursionVisitor<'a> {
-    fn check(grammar: &'a Grammar, rules: &HashMap<String, &'a Rule>) -> (HashMap<String, bool>, Vec<LeftRecursionError>) {
+    fn check(grammar: &'a Grammar, rules: &'a HashMap<String, &'a Rule>) -> (HashMap<String, bool>, Vec<LeftRecursionError>) {
         let mut visitor = LeftRecursionVisitor {
             rules,
             errors: Vec::new(),
             stack: Vec::new(),
+            params: &[],
         };
 
         let mut rule_nullability: HashMap<String, bool> = HashMap::new();
@@ -72,7 +80,9 @@ impl<'a> LeftRecursionVisitor<'a> {
 
     fn walk_rule(&mut self, rule: &'a Rule) -> bool {
         self.stack.push(rule.name.to_string());
+        let caller_params = std::mem::replace(&mut self.params, &rule.params);
         let res = self.walk_expr(&rule.expr);
+        self.params = caller_params;
         self.stack.pop().unwrap();
         res
     }
@@ -86,6 +96,8 @@ impl<'a> LeftRecursionVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
+            RuleExpr(ref rule_ident, _, _) if is_param(self.params, rule_ident) => false,
+
             RuleExpr(ref rule_ident, _, _) => {
                 let name = rule_ident.to_string();
 
@@ -187,6 +199,7 @@ impl<'a> LeftRecursionVisitor<'a> {
 /// Check for loops whose body can succeed without consuming any input, which
 /// will loop infinitely.
 struct LoopNullabilityVisitor<'a> {
+    params: &'a [RuleParam],
     rule_nullability: &'a HashMap<String, bool>,
     errors: Vec<LoopNullabilityError>,
 }
@@ -205,11 +218,13 @@ impl LoopNullabilityError {
 impl<'a> LoopNullabilityVisitor<'a> {
     fn check(grammar: &'a Grammar, rule_nullability: &HashMap<String, bool>) -> Vec<LoopNullabilityError> {
         let mut visitor = LoopNullabilityVisitor {
+            params: &[],
             rule_nullability,
             errors: Vec::new(),
         };
 
         for rule in grammar.iter_rules() {
+            visitor.params = &rule.params;
             visitor.walk_expr(&rule.expr);
         }
 
@@ -229,6 +244,8 @@ impl<'a> LoopNullabilityVisitor<'a> {
     fn walk_expr(&mut self, this_expr: &SpannedExpr) -> bool {
         use self::Expr::*;
         match this_expr.expr {
+            RuleExpr(ref rule_ident, _, _) if is_param(self.params, rule_ident) => false,
+
             RuleExpr(ref rule_ident, _, ref rule_args) => {
                 for arg in rule_args {
                     if let RuleArg::Peg(ref expr) = arg {
-- 
2.43.0


From dcd6777f711a31e12f7ee2da688ef43113bcf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 5/8] fix: treat the empty literal as nullable in the analysis

`""*` looped forever and `rule a() = "" a()` recursed forever without an error.
---
 peg-macros/analysis.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/peg-macros/analysis.rs b/peg-macros/analysis.rs
index 4abc7dd..9d312d9 100644
--- a/peg-macros/analysis.rs
+++ b/peg-macros/analysis.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Ident, Span};
+use proc_macro2::{Ident, Literal, Span};
 use std::collections::HashMap;
 
 use crate::ast::*;
@@ -33,6 +33,11 @@ fn is_param(params: &[RuleParam], name: &Ident) -> bool {
     params.iter().any(|param| param.name == *name)
 }
 
+/// Test if a literal is the empty string, which matches without consuming input.
+fn is_empty_literal(literal: &Literal) -> bool {
+    literal.to_string().trim_start_matches('r').trim_matches('#') == "\"\""
+}
+
 /// Check for infinite loops in the form of left recursion.
 ///
 /// If a PEG expression recurses without first consuming input, it will
@@ -184,7 +189,8 @@ impl<'a> LeftRecursionVisitor<'a> {
                nullable
             }
 
-            | LiteralExpr(_)
+            LiteralExpr(ref literal) => is_empty_literal(literal),
+
             | PatternExpr(_)
             | MethodExpr(_, _)
             | CustomExpr(_)
@@ -308,7 +314,8 @@ impl<'a> LoopNullabilityVisitor<'a> {
                 nullable
             }
 
-            | LiteralExpr(_)
+            LiteralExpr(ref literal) => is_empty_literal(literal),
+
             | PatternExpr(_)
             | MethodExpr(_, _)
             | CustomExpr(_)
-- 
2.43.0


From f5c1626984d27ce5a743d58c3aab28cd5c63ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 6/8] fix: parse an unlabelled rule call with generic arguments

In `foo::<T>()` the rule name and the first colon of `::` were taken for a label.
---
 peg-macros/grammar.rs      | 37 +++++++++++++++++++++++++++++++------
 peg-macros/grammar.rustpeg |  2 +-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/peg-macros/grammar.rs b/peg-macros/grammar.rs
index b77dbe3..56d6d33 100644
--- a/peg-macros/grammar.rs
+++ b/peg-macros/grammar.rs
@@ -2905,14 +2905,39 @@ pub mod peg {
                 let __seq_res = __parse_IDENT(__input, __state, __err_state, __pos);
                 match __seq_res {
                     ::peg::RuleResult::Matched(__pos, l) => {
-                        match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":") {
-                            ::peg::RuleResult::Matched(__pos, __val) => {
-                                ::peg::RuleResult::Matched(__pos, (|| l)())
+                        let __seq_res = {
+                            __err_state.suppress_fail += 1;
+                            let __assert_res = match ::peg::ParseLiteral::parse_string_literal(
+                                __input, __pos, "::",
+                            ) {
+                                ::peg::RuleResult::Matched(__pos, __val) => {
+                                    ::peg::RuleResult::Matched(__pos, __val)
+                                }
+                                ::peg::RuleResult::Failed => {
+                                    __err_state.mark_failure(__pos, "\"::\"");
+                                    ::peg::RuleResult::Failed
+                                }
+                            };
+                            __err_state.suppress_fail -= 1;
+                            match __assert_res {
+                                ::peg::RuleResult::Failed => ::peg::RuleResult::Matched(__pos, ()),
+                                ::peg::RuleResult::Matched(..) => ::peg::RuleResult::Failed,
                             }
-                            ::peg::RuleResult::Failed => {
-                                __err_state.mark_failure(__pos, "\":\"");
-                                ::peg::RuleResult::Failed
+                        };
+                        match __seq_res {
+                            ::peg::RuleResult::Matched(__pos, _) => {
+                                match ::peg::ParseLiteral::parse_string_literal(__input, __pos, ":")
+                                {
+                                    ::peg::RuleResult::Matched(__pos, __val) => {
+                                        ::peg::RuleResult::Matched(__pos, (|| l)())
+                                    }
+                                    ::peg::RuleResult::Failed => {
+                                        __err_state.mark_failure(__pos, "\":\"");
+                                        ::peg::RuleResult::Failed
+                                    }
+                                }
                             }
+                            ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
                         }
                     }
                     ::peg::RuleResult::Failed => ::peg::RuleResult::Failed,
diff --git a/peg-macros/grammar.rustpeg b/peg-macros/grammar.rustpeg
index e4dfd4d..eb083c1 100644
--- a/peg-macros/grammar.rustpeg
+++ b/peg-macros/grammar.rustpeg
@@ -113,7 +113,7 @@ rule sequence() -> SpannedExpr
     }
 
 rule labeled() -> TaggedExpr
-    = label:(l:IDENT() ":" {l})? expression:suffixed()
+    = label:(l:IDENT() !"::" ":" {l})? expression:suffixed()
         { TaggedExpr{ name: label, expr: expression } }
 
 rule suffixed() -> SpannedExpr
-- 
2.43.0


From 232831e1727a440195e73cd7131732a37a1dea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 7/8] fix: bind the label of a literal in a sequence

---
 peg-macros/translate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peg-macros/translate.rs b/peg-macros/translate.rs
index a4d8fa6..9aad125 100644
--- a/peg-macros/translate.rs
+++ b/peg-macros/translate.rs
@@ -457,7 +457,7 @@ fn compile_expr_continuation(
 
     let result_pat = name_or_ignore(result_name);
     match e.expr {
-        LiteralExpr(ref s) => compile_literal_expr(s, continuation),
+        LiteralExpr(ref s) if result_name.is_none() => compile_literal_expr(s, continuation),
 
         PatternExpr(ref pattern) => {
             let result_name = result_name
-- 
2.43.0


From 206f8a1e0cf2db4a18451a715a4239aba6a30cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:10 +0000
Subject: [PATCH 8/8] fix: do not link the standard library into peg without
 the std feature

With default features off peg-runtime was built with no_std, but the peg
crate itself still pulled in std, so peg could not be used on targets
without it (and clashed with a no_std program's panic handler).
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index de8a0fa..3401a95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -345,6 +345,8 @@
 //! ...
 //! ```
 
+#![cfg_attr(not(feature = "std"), no_std)]
+
 extern crate peg_macros;
 extern crate peg_runtime as runtime;
 
-- 
2.43.0

