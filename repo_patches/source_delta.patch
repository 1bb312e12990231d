From 6a314ef2b0f117fe07da6db2be86fc7a9b7eaaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 01/24] fix: do not look up the cache past the last token

Reparsing with a cached rule at the end of the input indexed out of bounds.
---
 fall/parse/src/syn_engine/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 25f40d5..cc2eb67 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -101,6 +101,9 @@ impl<'g> Parser<'g> {
 
     pub fn get_from_cache(&mut self, expr: ExprRef, pos: Pos) -> Option<Pos> {
         if let Some((ref cache, events)) = self.cache {
+            if pos.is_empty() {
+                return None;
+            }
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
                 self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
-- 
2.43.0


From 82e4bcb8668e3268e46006e8c518d51aa6380b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 02/24] fix: do not reuse a cached subtree that crosses the end
 of the layer

---
 fall/parse/src/syn_engine/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index cc2eb67..3236c1c 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -106,6 +106,9 @@ impl<'g> Parser<'g> {
             }
             let text_pos = self.non_ws_indexes[pos.0 as usize].0;
             if let Some(&(start_event, n_events, n_tokens)) = cache.get(&(text_pos, expr)) {
+                if pos.0 + n_tokens > pos.1 {
+                    return None;
+                }
                 self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
-- 
2.43.0


From dbe1ec18caf3d5ee645774ccd9ac17217de4570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:40 +0000
Subject: [PATCH 03/24] fix: lookahead must not touch the event log

Reusing a cached subtree, replacing a node type and forwarding a parent
all wrote events in predicate mode: the first duplicated tokens, the other
two indexed events that were never pushed.
---
 fall/parse/src/syn_engine/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index 3236c1c..c83d7be 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -109,7 +109,9 @@ impl<'g> Parser<'g> {
                 if pos.0 + n_tokens > pos.1 {
                     return None;
                 }
-                self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                if !self.predicate_mode {
+                    self.events.extend_from_slice(&events[start_event as usize..(start_event + n_events) as usize]);
+                }
                 return Some(Pos(pos.0 + n_tokens, pos.1));
             }
         }
@@ -156,6 +158,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
+        if self.predicate_mode {
+            return;
+        }
         let ty = self[ty_idx];
         match self.events[mark.0 as usize] {
             Event::Start { ty: ref mut prev, .. } => *prev = ty,
@@ -164,6 +169,9 @@ impl<'g> Parser<'g> {
     }
 
     pub fn forward_parent(&mut self, child: Mark, parent: Mark) {
+        if self.predicate_mode {
+            return;
+        }
         match self.events[child.0 as usize] {
             Event::Start { ref mut forward_parent, .. } =>
                 *forward_parent = Some(parent.0 - child.0),
-- 
2.43.0


From 3b09f531f295b9493f13c91bbd2f9d62d6e3a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 04/24] fix: resolve forwarded rule arguments in the caller's
 frame

`foo(y, x)` inside `foo(x, y)` read the slots it had just overwritten.
---
 fall/parse/src/syn_engine/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 1e2d304..171e8dd 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -323,7 +323,7 @@ fn parse_call<'g>(
     let old = p.args;
     for &(arg_pos, arg) in args {
         let arg = match p.grammar[arg] {
-            Expr::Var(i) => p.args[i.0 as usize].unwrap(),
+            Expr::Var(i) => old[i.0 as usize].unwrap(),
             _ => arg
         };
 
-- 
2.43.0


From 0cbda11ee49f8afab69ffcecf991119e0b6aed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 05/24] fix: don't panic if the start rule does not match

---
 fall/parse/src/syn_engine/expr.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 171e8dd..5a88b92 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -20,7 +20,18 @@ pub(crate) fn parse(
     let (mut parser, pos) = Parser::new(prev, &grammar, &is_ws, text, tokens);
 
     let start_rule = parser.grammar.start_rule;
-    let mut leftover = parse_expr(&mut parser, start_rule, pos).unwrap();
+    let mut leftover = match parse_expr(&mut parser, start_rule, pos) {
+        Some(leftover) => leftover,
+        None => {
+            // Not even a file: produce an empty root, errors are attached below
+            match parser.grammar[start_rule] {
+                Expr::Pub { ty, .. } => parser.start(ty),
+                _ => unreachable!(),
+            };
+            parser.finish();
+            pos
+        }
+    };
     if !leftover.is_empty() {
         parser.reopen();
         parser.start_error();
-- 
2.43.0


From 788678a59c8ee6efa9f0a32b1b4493c7333de7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 06/24] fix: count copied text when relocating salvaged
 subtrees

An empty cached subtree between two copied segments was also recorded at an
offset which ignored the length of the first segment, hiding the right entry.
---
 fall/parse/src/syn_engine/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fall/parse/src/syn_engine/mod.rs b/fall/parse/src/syn_engine/mod.rs
index b362028..f805279 100644
--- a/fall/parse/src/syn_engine/mod.rs
+++ b/fall/parse/src/syn_engine/mod.rs
@@ -104,10 +104,11 @@ pub(crate) fn salvage_segments(
                 let mut inserted = tu(0);
                 for op in edit.ops.iter() {
                     match *op {
-                        TextEditOp::Copy(copy) => if range.is_subrange_of(copy) {
-                            let fixed_start = inserted + (start - copy.start());
-                            result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
-                        } else {
+                        TextEditOp::Copy(copy) => {
+                            if range.is_subrange_of(copy) {
+                                let fixed_start = inserted + (start - copy.start());
+                                result.insert((fixed_start, ExprRef(key)), (start_event, n_events, n_tokens));
+                            }
                             inserted += copy.len()
                         }
                         TextEditOp::Insert(ref text) => inserted += text.as_text().len(),
-- 
2.43.0


From 2d6019e8b76d0ef4887a1e64f0646b495ceeba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 07/24] fix: backtracking and lookahead restore prev and
 replacement

A node parsed by an abandoned alternative or inside a lookahead was still
seen by later `prev_is` checks and replaceable nodes.
---
 fall/parse/src/syn_engine/expr.rs   | 2 ++
 fall/parse/src/syn_engine/parser.rs | 8 +++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/fall/parse/src/syn_engine/expr.rs b/fall/parse/src/syn_engine/expr.rs
index 5a88b92..ce8b7ad 100644
--- a/fall/parse/src/syn_engine/expr.rs
+++ b/fall/parse/src/syn_engine/expr.rs
@@ -59,7 +59,9 @@ pub(crate) fn parse_expr(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<P
 fn parse_expr_pred(p: &mut Parser, expr: ExprRef, tokens: Pos) -> Option<Pos> {
     let old_mode = p.predicate_mode;
     p.predicate_mode = true;
+    let mark = p.mark();
     let result = parse_expr(p, expr, tokens);
+    p.rollback(mark);
     p.predicate_mode = old_mode;
     result
 }
diff --git a/fall/parse/src/syn_engine/parser.rs b/fall/parse/src/syn_engine/parser.rs
index c83d7be..eac9e50 100644
--- a/fall/parse/src/syn_engine/parser.rs
+++ b/fall/parse/src/syn_engine/parser.rs
@@ -34,7 +34,7 @@ impl Pos {
     }
 }
 
-pub(crate) struct Mark(u32);
+pub(crate) struct Mark(u32, Option<NodeType>, Option<NodeTypeRef>);
 
 impl<'g> Parser<'g> {
     pub fn new(
@@ -145,7 +145,7 @@ impl<'g> Parser<'g> {
     }
 
     pub fn mark(&self) -> Mark {
-        Mark(self.events.len() as u32)
+        Mark(self.events.len() as u32, self.prev, self.replacement)
     }
 
     pub fn rollback(&mut self, mark: Mark) {
@@ -155,6 +155,8 @@ impl<'g> Parser<'g> {
         }
 
         truncate_fast(&mut self.events, mark.0 as usize);
+        self.prev = mark.1;
+        self.replacement = mark.2;
     }
 
     pub fn replace(&mut self, mark: Mark, ty_idx: NodeTypeRef) {
@@ -226,7 +228,7 @@ impl<'g> Parser<'g> {
     }
 
     fn start_ty(&mut self, ty: NodeType) -> Mark {
-        let mark = Mark(self.events.len() as u32);
+        let mark = self.mark();
         self.event(Event::Start { ty, forward_parent: None });
         mark
     }
-- 
2.43.0


From f5105f51bcf50dc0b991f49e2edd41341085022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 08/24] fix: reject inverted ranges when deserializing

---
 fall/text/src/text_range.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 1b87fc4..7d50c41 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -32,7 +32,10 @@ impl Serialize for TextRange {
 
 impl<'de> Deserialize<'de> for TextRange {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let (start, end) = Deserialize::deserialize(deserializer)?;
+        let (start, end): (TextUnit, TextUnit) = Deserialize::deserialize(deserializer)?;
+        if start > end {
+            return Err(::serde::de::Error::custom("invalid text range"));
+        }
         Ok(TextRange { start, end })
     }
 }
-- 
2.43.0


From 3c846305f8e57fb2f1fed8699b44931e0c657a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:05 +0000
Subject: [PATCH 09/24] fix: equal empty ranges compare as equal

---
 fall/text/src/text_range.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fall/text/src/text_range.rs b/fall/text/src/text_range.rs
index 7d50c41..7e644b2 100644
--- a/fall/text/src/text_range.rs
+++ b/fall/text/src/text_range.rs
@@ -116,12 +116,12 @@ impl ops::Index<TextRange> for String {
 
 impl PartialOrd for TextRange {
     fn partial_cmp(&self, other: &TextRange) -> Option<Ordering> {
-        if self.end() <= other.start() {
+        if self == other {
+            Some(Ordering::Equal)
+        } else if self.end() <= other.start() {
             Some(Ordering::Less)
         } else if other.end() <= self.start() {
             Some(Ordering::Greater)
-        } else if self == other {
-            Some(Ordering::Equal)
         } else {
             None
         }
-- 
2.43.0


From 73996b83b0755e83990058ae349783f03249e39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 10/24] fix: keep text inserted after a node that is deleted or
 replaced as well

---
 fall/tree/src/edit.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/fall/tree/src/edit.rs b/fall/tree/src/edit.rs
index 02e0b6e..d11fe9a 100644
--- a/fall/tree/src/edit.rs
+++ b/fall/tree/src/edit.rs
@@ -62,16 +62,12 @@ impl<'f> FileEdit<'f> {
     fn text_edit_for_node(&self, node: Node<'f>, edit_builder: &mut TextEditBuilder) {
         if self.deleted.iter().find(|&&n| n == node).is_some() {
             edit_builder.delete(node.range());
-            return;
-        }
-
-        if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
+        } else if let Some(&(_, ref replacement)) = self.replaced.iter().find(|&&(n, _)| n == node) {
             edit_builder.replace(node.range(), replacement.as_ref());
-            return;
-        }
-
-        for child in node.children() {
-            self.text_edit_for_node(child, edit_builder);
+        } else {
+            for child in node.children() {
+                self.text_edit_for_node(child, edit_builder);
+            }
         }
 
         if let Some(&(_, ref replacement)) = self.inserted.iter().find(|&&(n, _)| n == node) {
-- 
2.43.0


From 772d4b40d65ca9e233957e2c781a99f6753bbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 11/24] fix: report duplicate rules and contexts used once even
 if nothing refers to them

---
 lang/fall/src/analysis/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index aaf204c..bf9e936 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -66,6 +66,8 @@ impl<'f> Analysis<'f> {
         );
         self.db.get(query::UnusedRules);
         self.db.get(query::AllLexRules);
+        self.db.get(query::AllSynRules);
+        self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
         result.sort_by_key(|d| {
-- 
2.43.0


From cead11552ab8f783366672a7ef416decfe77b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:27 +0000
Subject: [PATCH 12/24] fix: order of diagnostics does not depend on the order
 of the queries

---
 lang/fall/src/analysis/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/src/analysis/mod.rs b/lang/fall/src/analysis/mod.rs
index bf9e936..0918eeb 100644
--- a/lang/fall/src/analysis/mod.rs
+++ b/lang/fall/src/analysis/mod.rs
@@ -70,12 +70,12 @@ impl<'f> Analysis<'f> {
         self.db.get(query::AllContexts);
 
         let mut result = self.db.diagnostics.lock().unwrap().clone();
-        result.sort_by_key(|d| {
+        result.sort_by_cached_key(|d| {
             let priority = match d.severity {
                 Severity::Error => 0,
                 Severity::Warning => 1,
             };
-            (priority, d.range.start(), d.range.end())
+            (priority, d.range.start(), d.range.end(), d.message.clone())
         });
         result
     }
-- 
2.43.0


From e27c0299838fd4204abe4bc62719cc03e2cc4e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:51 +0000
Subject: [PATCH 13/24] fix: looking for alternatives to swap prints nothing

---
 lang/fall/src/editor/actions/swap_alternatives.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lang/fall/src/editor/actions/swap_alternatives.rs b/lang/fall/src/editor/actions/swap_alternatives.rs
index 980345e..30b623b 100644
--- a/lang/fall/src/editor/actions/swap_alternatives.rs
+++ b/lang/fall/src/editor/actions/swap_alternatives.rs
@@ -27,7 +27,6 @@ fn find_swappable_nodes<'f>(file: &'f File, offset: TextUnit) -> Option<(Node<'f
             return None;
         },
     };
-    println!("B");
 
     let parent = pipe.parent().and_then(BlockExpr::wrap)?;
     for (alt1, alt2) in parent.alts().zip(parent.alts().skip(1)) {
-- 
2.43.0


From 3eb7bc9553a6062eb9a79724e831447679bd8681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:00 +0000
Subject: [PATCH 14/24] fix: recognise <commit> by its name, refuse it outside
 of sequences

---
 fall/gen/src/generate/codegen.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 28a5d8b..5102797 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -203,7 +203,10 @@ impl<'a, 'f> Codegen<'a, 'f> {
 
             Expr::SeqExpr(seq) => {
                 fn is_commit(part: Expr) -> bool {
-                    part.node().text() == "<commit>"
+                    match part {
+                        Expr::CallExpr(call) => call.fn_name() == "commit",
+                        _ => false,
+                    }
                 }
                 let commit = seq.parts().position(is_commit);
                 let parts = seq.parts()
@@ -276,7 +279,7 @@ impl<'a, 'f> Codegen<'a, 'f> {
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
                         tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
                     ),
-                    CallKind::Commit => panic!("Should be handled specially"),
+                    CallKind::Commit => return Err(format_err!("<commit> should be a part of a sequence")),
                 }
             }
             Expr::OptExpr(opt_expr) => dst::Expr::Opt(self.gen_expr(opt_expr.expr())?),
-- 
2.43.0


From fb7286979e557f3bee51efe7966dfe89e36c7b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 15/24] fix: an unknown node type of a rule is an error of the
 grammar

---
 fall/gen/src/generate/codegen.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 5102797..b4616de 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -158,7 +158,14 @@ impl<'a, 'f> Codegen<'a, 'f> {
             (false, body) => self.gen_expr(body)?
         };
 
-        let body = match (self.syn_rule_ty(rule), rule.is_replaces(), rule.is_cached()) {
+        let ty = match rule.ty_name() {
+            Some(name) => Some(
+                self.syn_rule_ty(rule).ok_or(format_err!("Unknown node type: {}", name))?
+            ),
+            None => None,
+        };
+
+        let body = match (ty, rule.is_replaces(), rule.is_cached()) {
             (Some(ty), true, _) => dst::Expr::PubReplace {
                 ty,
                 body,
@@ -277,7 +284,9 @@ impl<'a, 'f> Codegen<'a, 'f> {
                             .collect::<Result<Vec<_>>>()?,
                     ),
                     CallKind::PrevIs(tokens) => dst::Expr::PrevIs(
-                        tokens.iter().map(|&r| self.syn_rule_ty(r).unwrap()).collect()
+                        tokens.iter()
+                            .map(|&r| self.syn_rule_ty(r).ok_or(format_err!("Unknown node type")))
+                            .collect::<Result<Vec<_>>>()?
                     ),
                     CallKind::Commit => return Err(format_err!("<commit> should be a part of a sequence")),
                 }
-- 
2.43.0


From 4f019df281f07db86f2e4f68accd5577ad57d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:17 +0000
Subject: [PATCH 16/24] fix: ast definitions without a name are not nodes, so
 their name accessors cannot panic

---
 lang/fall/syntax/src/fall.fall | 10 ++++------
 lang/fall/syntax/src/fall.rs   |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index c371f98..5639637 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -267,20 +267,18 @@ pub rule ast_def {
 }
 
 pub rule ast_node_def {
-  'node' <commit>
-  ident {':' {ident {',' | <not <not '{'>>}}*}?
+  'node' ident <commit>
+  {':' {ident {',' | <not <not '{'>>}}*}?
   <block method_def*>
 }
 
 pub rule ast_class_def {
-  'class' <commit>
-  ident
+  'class' ident <commit>
   <block ident*>
 }
 
 pub rule ast_trait_def {
-  'trait' <commit>
-  ident
+  'trait' ident <commit>
   <block method_def*>
 }
 
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 530551a..4a78001 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],1]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],1]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],1]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],2]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],2]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],2]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 6791ca220736650271d1a798de45541413ef5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:26 +0000
Subject: [PATCH 17/24] fix: a verbatim block always has its text

---
 lang/fall/syntax/src/fall.fall | 2 +-
 lang/fall/syntax/src/fall.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index 5639637..bc2e8dd 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -244,7 +244,7 @@ rule balanced(bra, ket) {
 // is not regular (in fact, it is not even context free! o_O),
 // so we use a hand written `parse_raw_string` function to deal
 // with them.
-pub rule verbatim_def { 'verbatim' <commit> hash_string }
+pub rule verbatim_def { 'verbatim' hash_string }
 
 verbatim r#########"
 
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 4a78001..680cf7a 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -83,7 +83,7 @@ pub fn language() -> &'static rt::Language {
         ])
     }
     fn create_parser_definition() -> rt::ParserDefinition {
-        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],1]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],2]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],2]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],2]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
+        let parser_json = r##"[{"Pub":{"ty":32,"body":37,"replaceable":false}},{"Or":[39,41,43,45,47,49,51]},{"Or":[52,53,54,55,56]},{"Pub":{"ty":33,"body":77,"replaceable":false}},{"Pub":{"ty":34,"body":83,"replaceable":false}},{"Pub":{"ty":35,"body":86,"replaceable":false}},{"Pratt":{"atoms":[12,7,9],"prefixes":[],"infixes":[{"ty":39,"op":87,"priority":999,"has_rhs":false},{"ty":40,"op":88,"priority":999,"has_rhs":false}]}},{"Pub":{"ty":36,"body":93,"replaceable":false}},{"Pub":{"ty":37,"body":96,"replaceable":false}},{"Pub":{"ty":38,"body":106,"replaceable":false}},{"Pub":{"ty":39,"body":109,"replaceable":false}},{"Pub":{"ty":40,"body":112,"replaceable":false}},{"Pub":{"ty":41,"body":118,"replaceable":false}},{"Pub":{"ty":42,"body":123,"replaceable":false}},{"Pub":{"ty":43,"body":128,"replaceable":false}},{"Pub":{"ty":44,"body":132,"replaceable":false}},{"Pub":{"ty":45,"body":139,"replaceable":false}},{"Pub":{"ty":46,"body":147,"replaceable":false}},{"Pub":{"ty":47,"body":152,"replaceable":false}},{"Pub":{"ty":48,"body":157,"replaceable":false}},{"Or":[167]},{"Or":[172]},{"Or":[176]},{"Or":[180]},{"Or":[184]},{"Or":[199]},{"Pub":{"ty":49,"body":203,"replaceable":false}},{"Pub":{"ty":50,"body":221,"replaceable":false}},{"Pub":{"ty":51,"body":242,"replaceable":false}},{"Pub":{"ty":52,"body":249,"replaceable":false}},{"Pub":{"ty":53,"body":255,"replaceable":false}},{"Pub":{"ty":54,"body":258,"replaceable":false}},{"Pub":{"ty":55,"body":262,"replaceable":false}},{"Or":[266,269,271,273]},{"WithSkip":[1,2]},{"Rep":34},{"And":[[35],null]},{"Or":[36]},{"ContextualToken":[6,"tokenizer"]},{"And":[[38],null]},{"ContextualToken":[10,"pub"]},{"And":[[40],null]},{"ContextualToken":[7,"rule"]},{"And":[[42],null]},{"Token":19},{"And":[[44],null]},{"ContextualToken":[8,"verbatim"]},{"And":[[46],null]},{"ContextualToken":[9,"ast"]},{"And":[[48],null]},{"ContextualToken":[11,"test"]},{"And":[[50],null]},{"And":[[13],null]},{"And":[[3],null]},{"And":[[26],null]},{"And":[[27],null]},{"And":[[15],null]},{"Opt":16},{"ContextualToken":[10,"pub"]},{"Opt":58},{"ContextualToken":[7,"rule"]},{"Token":31},{"Opt":4},{"Token":20},{"Token":21},{"And":[[63,22,64],null]},{"Token":20},{"Not":1},"Any",{"And":[[67,68],null]},{"Or":[69]},{"Rep":70},{"And":[[66,71],null]},{"Or":[65,72]},{"Layer":[73,9]},{"And":[[57,59,60,61,62,74],3]},{"Or":[75]},{"Cached":76},{"Token":26},{"Call":[20,[[0,5]]]},{"Layer":[23,79]},{"Token":27},{"And":[[78,80,81],null]},{"Or":[82]},{"Token":31},{"And":[[84],null]},{"Or":[85]},{"Token":15},{"Token":14},{"Token":31},{"And":[[89],null]},{"Token":29},{"And":[[91],null]},{"Or":[90,92]},{"Rep":6},{"And":[[94],null]},{"Or":[95]},{"Opt":8},{"Token":13},{"And":[[98,8],null]},{"Or":[99]},{"Rep":100},{"And":[[97,101],null]},{"Or":[102]},{"Call":[21,[[1,103]]]},{"And":[[104],null]},{"Or":[105]},{"Token":15},{"And":[[6,107],null]},{"Or":[108]},{"Token":14},{"And":[[6,110],null]},{"Or":[111]},{"Token":24},{"Token":31},{"Rep":6},{"Token":25},{"And":[[113,114,115,116],null]},{"Or":[117]},{"ContextualToken":[6,"tokenizer"]},{"Rep":14},{"Call":[21,[[1,120]]]},{"And":[[119,121],1]},{"Or":[122]},{"Opt":16},{"Token":31},{"Opt":19},{"And":[[124,125,19,126],2]},{"Or":[127]},{"ContextualToken":[11,"test"]},{"Token":30},{"And":[[129,130],1]},{"Or":[131]},{"Token":19},{"Token":22},{"Call":[20,[[0,17]]]},{"Layer":[24,135]},{"Token":23},{"And":[[133,134,136,137],null]},{"Or":[138]},{"Token":31},{"Token":26},{"Token":27},{"And":[[141,18,142],null]},{"Or":[143]},{"Opt":144},{"And":[[140,145],null]},{"Or":[146]},{"Token":28},{"And":[[148],null]},{"Token":31},{"And":[[150],null]},{"Or":[149,151]},{"Token":29},{"And":[[153],null]},{"Token":30},{"And":[[155],null]},{"Or":[154,156]},{"Var":0},"Eof",{"And":[[159],null]},{"Token":17},{"And":[[161],null]},{"Or":[160,162]},{"And":[[158,163],1]},{"Or":[164]},{"Rep":165},{"And":[[166],null]},{"Token":20},{"Var":1},{"Layer":[22,169]},{"Token":21},{"And":[[168,170,171],1]},{"Token":20},{"Token":21},{"Call":[25,[[2,173],[3,174]]]},{"And":[[175],null]},{"Token":26},{"Token":27},{"Call":[25,[[2,177],[3,178]]]},{"And":[[179],null]},{"Token":22},{"Token":23},{"Call":[25,[[2,181],[3,182]]]},{"And":[[183],null]},{"Var":2},{"Var":2},{"Var":3},{"Call":[25,[[2,186],[3,187]]]},{"Var":3},{"And":[[185,188,189],null]},{"Var":3},{"Not":191},"Any",{"And":[[192,193],null]},{"Or":[194]},{"And":[[195],null]},{"Or":[190,196]},{"Rep":197},{"And":[[198],null]},{"ContextualToken":[8,"verbatim"]},{"Token":30},{"And":[[200,201],null]},{"Or":[202]},{"ContextualToken":[9,"ast"]},{"Token":20},{"ContextualToken":[3,"node"]},{"And":[[206],null]},{"ContextualToken":[4,"class"]},{"And":[[208],null]},{"ContextualToken":[5,"trait"]},{"And":[[210],null]},{"Or":[207,209,211]},{"And":[[28],null]},{"And":[[29],null]},{"And":[[30],null]},{"Or":[213,214,215]},{"WithSkip":[212,216]},{"Rep":217},{"Token":21},{"And":[[204,205,218,219],1]},{"Or":[220]},{"ContextualToken":[3,"node"]},{"Token":31},{"Token":18},{"Token":31},{"Token":17},{"And":[[226],null]},{"Token":20},{"Not":228},{"Not":229},{"And":[[230],null]},{"Or":[227,231]},{"And":[[225,232],null]},{"Or":[233]},{"Rep":234},{"And":[[224,235],null]},{"Or":[236]},{"Opt":237},{"Rep":31},{"Call":[21,[[1,239]]]},{"And":[[222,223,238,240],2]},{"Or":[241]},{"ContextualToken":[4,"class"]},{"Token":31},{"Token":31},{"Rep":245},{"Call":[21,[[1,246]]]},{"And":[[243,244,247],2]},{"Or":[248]},{"ContextualToken":[5,"trait"]},{"Token":31},{"Rep":31},{"Call":[21,[[1,252]]]},{"And":[[250,251,253],2]},{"Or":[254]},{"Token":31},{"And":[[256,32],null]},{"Or":[257]},{"Token":31},{"Opt":33},{"And":[[259,260],null]},{"Or":[261]},{"Token":15},{"Token":16},{"Token":31},{"And":[[263,264,265],null]},{"Token":16},{"Token":31},{"And":[[267,268],null]},{"Token":14},{"And":[[270],null]},{"Token":15},{"And":[[272],null]}]"##;
         ::fall_parse::ParserDefinition {
             node_types: vec![
                 rt::ERROR,
-- 
2.43.0


From 491e67815ec0c74cc08f649db28a0bd39a92406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 18/24] fix: a rule without a body has no body, so asking for
 it cannot panic

---
 fall/gen/src/generate/codegen.rs                     |  3 ++-
 .../fall/src/analysis/query/resolve_pratt_variant.rs | 12 +++++++-----
 lang/fall/syntax/src/fall.fall                       |  2 +-
 lang/fall/syntax/src/fall.rs                         |  4 ++--
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index b4616de..5e1c194 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -149,7 +149,8 @@ impl<'a, 'f> Codegen<'a, 'f> {
     }
 
     fn gen_rule(&mut self, rule: SynRule<'f>) -> Result<dst::Expr> {
-        let body = match (rule.is_pratt(), rule.body()) {
+        let body = rule.body().ok_or(format_err!("Rule without a body"))?;
+        let body = match (rule.is_pratt(), body) {
             (true, Expr::BlockExpr(block)) => {
                 let pratt = dst::Expr::Pratt(Box::new(self.gen_pratt(block)?));
                 self.push_expr(pratt)
diff --git a/lang/fall/src/analysis/query/resolve_pratt_variant.rs b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
index 476e9fa..1c8fd53 100644
--- a/lang/fall/src/analysis/query/resolve_pratt_variant.rs
+++ b/lang/fall/src/analysis/query/resolve_pratt_variant.rs
@@ -28,14 +28,16 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
             }
         };
 
+        let body = rule.body()?;
+
         if kind == "atom" {
             if priority.is_some() {
                 d.error(name_ident, "Atom rules don't have priority")
             }
-            return Some(PratVariant::Atom(rule.body()));
+            return Some(PratVariant::Atom(body));
         }
 
-        let args = match rule.body() {
+        let args = match body {
             Expr::BlockExpr(block) => match block.alts().collect_tuple() {
                 Some((alt, )) => match alt {
                     Expr::SeqExpr(args) => args.parts(),
@@ -61,7 +63,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Postfix rule requires a single expression and an operation"
                     );
                     return None;
@@ -75,7 +77,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     })
                 } else {
                     d.error(
-                        rule.body().node(),
+                        body.node(),
                         "Prefix rule requires an operation and a single expression"
                     );
                     return None;
@@ -88,7 +90,7 @@ impl<'f> db::OnceQExecutor<'f> for super::ResolvePrattVariant<'f> {
                     ),
                     (None, _) => {
                         d.error(
-                            rule.body().node(),
+                            body.node(),
                             "Binary expression requires a left hand side expression, an operator \
                              and a right hand side expression"
                         );
diff --git a/lang/fall/syntax/src/fall.fall b/lang/fall/syntax/src/fall.fall
index bc2e8dd..7c5e601 100644
--- a/lang/fall/syntax/src/fall.fall
+++ b/lang/fall/syntax/src/fall.fall
@@ -325,7 +325,7 @@ ast {
     attributes attributes?
     name_ident ident?
     name ident?.text
-    body expr
+    body expr?
     parameters parameters?
   }
 
diff --git a/lang/fall/syntax/src/fall.rs b/lang/fall/syntax/src/fall.rs
index 680cf7a..617e330 100644
--- a/lang/fall/syntax/src/fall.rs
+++ b/lang/fall/syntax/src/fall.rs
@@ -304,8 +304,8 @@ impl<'f> SynRule<'f> {
     pub fn name(&self) -> Option<rt::Text<'f>> {
         rt::child_of_type(self.node(), IDENT).map(|n| n.text())
     }
-    pub fn body(&self) -> Expr<'f> {
-        rt::AstChildren::new(self.node().children()).next().unwrap()
+    pub fn body(&self) -> Option<Expr<'f>> {
+        rt::AstChildren::new(self.node().children()).next()
     }
     pub fn parameters(&self) -> Option<Parameters<'f>> {
         rt::AstChildren::new(self.node().children()).next()
-- 
2.43.0


From cd1d0f64573c5133ef8a7cd7c8ae843ba4ef7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 19/24] fix: what is below a path that changed or is gone is
 forgotten by the file index

---
 indxr/src/lib.rs | 61 +++++++++++++++++-------------------------------
 1 file changed, 21 insertions(+), 40 deletions(-)

diff --git a/indxr/src/lib.rs b/indxr/src/lib.rs
index a4b61fa..11e674e 100644
--- a/indxr/src/lib.rs
+++ b/indxr/src/lib.rs
@@ -108,49 +108,30 @@ fn watch<V>(index: &FileIndexImpl<V>) {
 
 impl<V> FileIndexImpl<V> {
     fn change(&self, path: &Path) {
-        let added = path.exists();
-        match (path.is_dir(), added) {
-            (false, true) => {
-                if !(self.file_set.filter)(path) {
-                    return
+        let mut local = HashMap::new();
+        if path.is_dir() {
+            let files = WalkDir::new(path)
+                .into_iter()
+                .filter_map(|entry| entry.ok())
+                .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
+
+            for entry in files {
+                let path = entry.path().to_owned();
+                if let Some(value) = (self.mapper)(&path) {
+                    let file = IndexedFile { path: path.clone(), value };
+                    local.insert(path.clone(), file);
                 }
-                let value = (self.mapper)(path);
-                let mut data = self.data.lock().unwrap();
-                match value {
-                    None => {
-                        data.remove(path);
-                    },
-                    Some(value) => {
-                        let file = IndexedFile { path: path.to_owned(), value};
-                        data.insert(path.to_owned(), file);
-                    }
-                };
             }
-            (false, false) => {
-                self.data.lock().unwrap().remove(path);
+        } else if path.exists() && (self.file_set.filter)(path) {
+            if let Some(value) = (self.mapper)(path) {
+                let file = IndexedFile { path: path.to_owned(), value };
+                local.insert(path.to_owned(), file);
             }
-            (true, false) => {
-                self.data.lock().unwrap().retain(|k, _| {
-                    !k.starts_with(path)
-                });
-            }
-            (true, true) => {
-                let files = WalkDir::new(path)
-                    .into_iter()
-                    .filter_map(|entry| entry.ok())
-                    .filter(|entry| entry.file_type().is_file() && (self.file_set.filter)(entry.path()));
-
-                let mut local = HashMap::new();
-                for entry in files {
-                    let path = entry.path().to_owned();
-                    if let Some(value) = (self.mapper)(&path) {
-                        let file = IndexedFile { path: path.clone(), value };
-                        local.insert(path.clone(), file);
-                    }
-                }
+        }
 
-                self.data.lock().unwrap().extend(local);
-            }
-        };
+        // whatever was known about `path`, or about files below it, is out of date
+        let mut data = self.data.lock().unwrap();
+        data.retain(|k, _| !k.starts_with(path));
+        data.extend(local);
     }
 }
-- 
2.43.0


From dde9bb82b283853c6d514d0ce2549688c7348c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:19 +0000
Subject: [PATCH 20/24] fix: the editor queries of Rust answer at every offset
 of the file

---
 lang/rust/src/editor/mod.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lang/rust/src/editor/mod.rs b/lang/rust/src/editor/mod.rs
index 7a40883..c22c855 100644
--- a/lang/rust/src/editor/mod.rs
+++ b/lang/rust/src/editor/mod.rs
@@ -1,4 +1,4 @@
-use fall_tree::{File, TextEdit, TextRange, TextUnit, tu, AstNode, TextSuffix, FileEdit};
+use fall_tree::{File, Node, TextEdit, TextRange, TextUnit, tu, AstNode, TextSuffix, FileEdit};
 use fall_tree::search::{find_leaf_at_offset, ancestors};
 use fall_tree::search::ast;
 use fall_tree::visitor::{visitor, process_node, process_subtree_bottom_up};
@@ -28,8 +28,15 @@ impl RustEditorFile {
         RustEditorFile { file }
     }
 
+    fn leaf_before(&self, offset: TextUnit, distance: TextUnit) -> Option<Node> {
+        if offset < distance {
+            return None;
+        }
+        find_leaf_at_offset(self.file.root(), offset - distance).left_biased()
+    }
+
     pub fn after_space_typed(&self, offset: TextUnit) -> Option<String> {
-        let let_kw = find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased()?;
+        let let_kw = self.leaf_before(offset, tu(1))?;
         if let_kw.ty() != LET {
             return None;
         }
@@ -44,16 +51,11 @@ impl RustEditorFile {
     }
 
     pub fn expand(&self, offset: TextUnit) -> Option<TextEdit> {
-        let leaf = find_leaf_at_offset(self.file.root(), offset - tu(2))
-            .left_biased()?;
+        let leaf = self.leaf_before(offset, tu(2))?;
         let expr: ExprStmt = ast::ancestor(leaf)?;
         let mut edit = FileEdit::new(&self.file);
-        let text = self.file.text().slice(
-            TextRange::from_to(
-                expr.node().range().start(),
-                expr.node().range().end() - tu(3),
-            ),
-        );
+        let text = expr.node().text().to_string();
+        let text = text.get(..text.len().checked_sub(3)?)?;
         edit.replace_substring(
             TextRange::from_to(expr.node().range().start(), offset),
             format!("eprintln!(\"{text} = {{:?}}\", {text});", text = text)
@@ -63,7 +65,7 @@ impl RustEditorFile {
     }
 
     pub fn breadcrumbs(&self, offset: TextUnit) -> Vec<String> {
-        let leaf = match find_leaf_at_offset(self.file.root(), offset - tu(1)).left_biased() {
+        let leaf = match self.leaf_before(offset, tu(1)) {
             Some(leaf) => leaf,
             None => return Vec::new(),
         };
-- 
2.43.0


From 26055e02eb91ab90c229a1aa0681942a7597eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:35 +0000
Subject: [PATCH 21/24] fix: the symbol index keeps the symbols whose names
 differ in case or not at all

---
 lang/rust/src/editor/symbol_index.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lang/rust/src/editor/symbol_index.rs b/lang/rust/src/editor/symbol_index.rs
index 3aaa67d..e687ad0 100644
--- a/lang/rust/src/editor/symbol_index.rs
+++ b/lang/rust/src/editor/symbol_index.rs
@@ -75,9 +75,11 @@ impl Query {
         let a = FstSubSeq::new(&self.query);
         for idx in file.map.search(a).into_stream().into_values() {
             let idx = idx as usize;
-            let symbol = file.symbols[idx].clone();
-            if self.all_symbols || is_type(symbol.ty) {
-                acc(symbol)
+            let name = file.symbols[idx].name.to_lowercase();
+            for symbol in file.symbols[idx..].iter().take_while(|s| s.name.to_lowercase() == name) {
+                if self.all_symbols || is_type(symbol.ty) {
+                    acc(symbol.clone())
+                }
             }
         }
     }
@@ -103,11 +105,13 @@ impl FileSymbols {
             })
         });
         symbols.sort_by_key(|s| s.name.to_lowercase());
-        symbols.dedup_by_key(|s| s.name.to_lowercase());
 
-        let map = fst::Map::from_iter(
-            symbols.iter().map(|s| (s.name.to_lowercase())).zip(0u64..)
-        ).unwrap();
+        // The map takes a name to the first of the symbols which have it.
+        let mut names: Vec<(String, u64)> = symbols.iter()
+            .map(|s| (s.name.to_lowercase())).zip(0u64..)
+            .collect();
+        names.dedup_by(|a, b| a.0 == b.0);
+        let map = fst::Map::from_iter(names).unwrap();
 
         FileSymbols { symbols, map }
     }
-- 
2.43.0


From aa74d76fa830ae43025288a557640795edc8413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 22/24] fix: references to tokens by accessors of their text

Go to definition led nowhere and find usages left the accessor out, although
the analysis resolves it.
---
 lang/fall/src/editor/references/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lang/fall/src/editor/references/mod.rs b/lang/fall/src/editor/references/mod.rs
index 2473fe5..7a1820f 100644
--- a/lang/fall/src/editor/references/mod.rs
+++ b/lang/fall/src/editor/references/mod.rs
@@ -55,7 +55,7 @@ fn ref_provider<'f>(analysis: &Analysis<'f>, node: Node<'f>) -> Option<Reference
                             ChildKind::AstClass(cls) => cls.into(),
                             ChildKind::Token(token) => token.into()
                         }
-                        _ => return None
+                        MethodKind::TextAccessor(token, _) => token.into(),
                     })
                 }))
             })
-- 
2.43.0


From 19d3fbf655d28775eb2ca26c5afbc7dce1af54ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:50 +0000
Subject: [PATCH 23/24] fix: a call with wrong arguments does not compile

---
 fall/gen/src/generate/codegen.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/fall/gen/src/generate/codegen.rs b/fall/gen/src/generate/codegen.rs
index 5e1c194..b4177a9 100644
--- a/fall/gen/src/generate/codegen.rs
+++ b/fall/gen/src/generate/codegen.rs
@@ -247,9 +247,21 @@ impl<'a, 'f> Codegen<'a, 'f> {
                 }
             }
 
-            Expr::CallExpr(call) => {
-                let call = self.analysis.resolve_call(call)
-                    .ok_or(format_err!("Failed to compile {}", call.node().text()))?;
+            Expr::CallExpr(call_expr) => {
+                let call = self.analysis.resolve_call(call_expr)
+                    .ok_or(format_err!("Failed to compile {}", call_expr.node().text()))?;
+
+                let n_args = match call {
+                    CallKind::Eof | CallKind::Any | CallKind::Commit => 0,
+                    CallKind::Not(..) | CallKind::IsIn(..) => 1,
+                    CallKind::Layer(..) | CallKind::WithSkip(..) | CallKind::Inject(..)
+                    | CallKind::Enter(..) | CallKind::Exit(..) => 2,
+                    CallKind::RuleCall(rule, _) => rule.parameters().map_or(0, |p| p.parameters().count()),
+                    CallKind::PrevIs(ref rules) => rules.len(),
+                };
+                if call_expr.args().count() != n_args {
+                    return Err(format_err!("Wrong arguments: {}", call_expr.node().text()));
+                }
 
                 match call {
                     CallKind::Eof => dst::Expr::Eof,
-- 
2.43.0


From 0e3f345e98172adb160336a355fa7547ac83dadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 24/24] fix: the highlight of an empty error stays inside the
 file

---
 fall/editor/src/hl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fall/editor/src/hl.rs b/fall/editor/src/hl.rs
index 292d02a..d0e47a9 100644
--- a/fall/editor/src/hl.rs
+++ b/fall/editor/src/hl.rs
@@ -1,4 +1,4 @@
-use fall_tree::{TextRange, NodeType, Node, tu, ERROR as ERROR_TY};
+use fall_tree::{TextRange, TextSuffix, NodeType, Node, tu, ERROR as ERROR_TY};
 
 use fall_tree::visitor::{Visit, VisitorBuilder};
 
@@ -31,7 +31,11 @@ impl<'f> Visit<'f> for HlVisitor {
     fn visit(&mut self, node: Node<'f>, ctx: &mut Highlights) {
         if node.ty() == ERROR_TY {
             let range = if node.range().is_empty() {
-                TextRange::from_len(node.range().start(), tu(1))
+                // the character that follows, if there is one
+                let start = node.range().start();
+                let rest = node.file().text().slice(TextSuffix::from(start));
+                let len = rest.to_cow().chars().next().map_or(tu(0), |c| tu(c.len_utf8() as u32));
+                TextRange::from_len(start, len)
             } else {
                 node.range()
             };
-- 
2.43.0

