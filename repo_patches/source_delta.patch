From 289de4f589fc001dcf10ac60823ead5ce36e8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:53 +0000
Subject: [PATCH 01/20] fix: flush pending output before a `let` introduces a
 variable

An expression that was still pending when `{% let x = .. %}` shadowed the struct
field of the same name was resolved after the variable had been introduced, so
`{{ x }}{% let x = "b" %}` printed the new variable.
---
 askama_derive/src/generator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..1f26f80 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -882,11 +882,9 @@ impl<'a> Generator<'a> {
         self.visit_expr(&mut expr_buf, val)?;
 
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
+        // Need to flush the buffer before the variable is (re)introduced, to ensure that
+        // pending expressions still refer to the variable or field it shadows.
+        self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
-- 
2.43.0


From 294bc8babdbbd72487297045e149c32792aa2220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 02/20] fix: resolve all macro arguments before introducing the
 parameters

The parameters were added to the scope one at a time while the remaining
arguments were still being resolved, so `{% call m(b, a) %}` of a macro
`m(a, b)` passed the first argument twice.
---
 askama_derive/src/generator.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 1f26f80..cf5dabd 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -607,6 +607,7 @@ impl<'a> Generator<'a> {
                 args.len()
             )));
         }
+        let mut new_locals = Vec::with_capacity(def.args.len());
         let mut named_arguments = HashMap::new();
         // Since named arguments can only be passed last, we only need to check if the last argument
         // is a named one.
@@ -657,16 +658,14 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    new_locals.push((arg, LocalMeta::with_ref(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    new_locals.push((arg, LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -684,10 +683,15 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    new_locals.push((arg, LocalMeta::default()));
                 }
             }
         }
+        // The arguments are evaluated in the scope of the caller, so the parameters may only be
+        // introduced once all of them are resolved.
+        for (arg, meta) in new_locals {
+            self.locals.insert(Cow::Borrowed(arg), meta);
+        }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
-- 
2.43.0


From b8058d0802443a28d32616212d81c77f6d97161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 03/20] fix: treat macro parameters and declared variables
 named like keywords as such

Scopes are keyed by the raw identifier (`r#type`), but macro parameters and the
declared-before lookup of `let` used the plain name, so a parameter named `type`
silently resolved to the struct field and `{% let type %}` was never assigned.
---
 askama_derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index cf5dabd..ac3de48 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -652,6 +652,7 @@ impl<'a> Generator<'a> {
                     &args[index]
                 }
             };
+            let arg = normalize_identifier(arg);
             match expr {
                 // If `expr` is already a form of variable then
                 // don't reintroduce a new variable. This is
@@ -891,7 +892,11 @@ impl<'a> Generator<'a> {
         self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(
+                &l.var,
+                Target::Name(name)
+                    if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none()
+            )
         {
             buf.write("let ");
         }
-- 
2.43.0


From 5c897d40e32e8985360aa233ece67759c7642868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 04/20] fix: render filter blocks into their own string

The content of a filter block was collected in the pending output buffer. Any
control structure, include, call or block inside flushed that buffer straight to
the writer, so its output was neither filtered nor in order, and an empty filter
block dropped everything that was pending before it.
---
 askama_derive/src/generator.rs | 41 ++++++++++++----------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ac3de48..32f0288 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -724,36 +724,23 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
+        let mut size_hint = self.write_buf_writable(buf)?;
 
+        // The content is rendered into its own string, so that any code in the block, including
+        // control structures, writes its output there.
+        buf.writeln(&format!("let mut {var_name} = ::std::string::String::new();"))?;
+        buf.writeln("{")?;
+        buf.writeln("#[allow(unused_variables)]")?;
+        buf.writeln(&format!(
+            "let writer = &mut {var_name} as &mut dyn ::std::fmt::Write;"
+        ))?;
+        self.locals.push();
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        self.locals.pop();
+        buf.writeln("}")?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
-- 
2.43.0


From b7c2e2084d78becc28fa7c0aaa353b6d43e319a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 05/20] fix: find blocks defined inside filter blocks

Such a block was not collected, so that using it panicked in the derive macro.
---
 askama_derive/src/generator.rs | 16 ++++++++++------
 askama_derive/src/heritage.rs  |  3 +++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 32f0288..adf14c1 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -933,12 +933,16 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
-            CompileError::from(match name {
-                None => format!("no super() block found for block '{}'", cur.0),
-                Some(name) => format!("no block found for name '{name}'"),
-            })
-        })?;
+        let (child_ctx, def) = *heritage
+            .blocks
+            .get(cur.0)
+            .and_then(|ancestry| ancestry.get(cur.1))
+            .ok_or_else(|| {
+                CompileError::from(match name {
+                    None => format!("no super() block found for block '{}'", cur.0),
+                    Some(name) => format!("no block found for name '{name}'"),
+                })
+            })?;
 
         // We clone the context of the child in order to preserve their macros and imports.
         // But also add all the imports and macros from this template that don't override the
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..301e0c2 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -97,6 +97,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(f) => {
+                        nested.push(&f.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 65e3876f9a7b2461b69377ec1a4798d3ab9b900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 06/20] fix: report every cycle of extending templates

Only a template extending itself was detected; with two or more templates
extending each other the derive macro never terminated.
---
 askama_derive/src/input.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..401801d 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -142,14 +142,23 @@ impl TemplateInput<'_> {
                         Node::Extends(extends) if top => {
                             let extends = self.config.find_template(extends.path, Some(&path))?;
                             let dependency_path = (path.clone(), extends.clone());
-                            if path == extends {
-                                // We add the path into the graph to have a better looking error.
-                                dependency_graph.push(dependency_path);
-                                return cyclic_graph_error(&dependency_graph);
-                            } else if dependency_graph.contains(&dependency_path) {
+                            if dependency_graph.contains(&dependency_path) {
                                 return cyclic_graph_error(&dependency_graph);
                             }
+                            // Follow the chain of ancestors: if it leads back to this template
+                            // then it has no root. We add the path into the graph first to have
+                            // a better looking error.
                             dependency_graph.push(dependency_path);
+                            let mut ancestor = Some(&extends);
+                            while let Some(current) = ancestor {
+                                if *current == path {
+                                    return cyclic_graph_error(&dependency_graph);
+                                }
+                                ancestor = dependency_graph
+                                    .iter()
+                                    .find(|(child, _)| child == current)
+                                    .map(|(_, parent)| parent);
+                            }
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
-- 
2.43.0


From a5448defed6c141171528183d1d5c0b86171f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 07/20] fix: resolve nested include paths relative to the
 including template

Dependencies were collected relative to the including file, but generating the
code looked the path up relative to the root template, so a relative include in
an included (or extended) template of another directory failed.
---
 askama_derive/src/generator.rs | 6 ++----
 askama_derive/src/heritage.rs  | 4 +++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index adf14c1..9686c65 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -772,10 +772,8 @@ impl<'a> Generator<'a> {
     ) -> Result<usize, CompileError> {
         self.flush_ws(i.ws);
         self.write_buf_writable(buf)?;
-        let path = self
-            .input
-            .config
-            .find_template(i.path, Some(&self.input.path))?;
+        // The path is relative to the template that contains the `include`
+        let path = self.input.config.find_template(i.path, ctx.path)?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 301e0c2..20a2885 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,6 +38,7 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
@@ -48,7 +49,7 @@ pub(crate) struct Context<'a> {
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -107,6 +108,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From 7bbe174ceca92be0e607d5f497c330d5fc9e7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 08/20] fix: axum: respond with an error status if rendering
 failed

The plain error message was converted into a `200 OK` response.
---
 askama_axum/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..e5c5b9f 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,12 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| {
+            axum_core::response::ErrorResponse::from((
+                http::StatusCode::INTERNAL_SERVER_ERROR,
+                err.to_string(),
+            ))
+        })
         .into_response()
 }
 
-- 
2.43.0


From 0d5baa8bee1e9ebc3a68758ac22a07a230edd6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 09/20] fix: leave the nesting level when a target does not
 parse

The level leaked on every recoverable error, so that a long enough template
failed to parse as nested too deeply without being nested.
---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From 3ff7f730a7ebec71144cb11a319db143a761ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:58 +0000
Subject: [PATCH 10/20] fix: write the output of a block in its own scope and
 discarding state

---
 askama_derive/src/generator.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9686c65..3208c9a 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -969,14 +969,12 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
+        // The remaining output belongs to the scope of the block, and has to be written before
+        // the original buffer discarding state gets restored
+        size_hint += child.write_buf_writable(buf)?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1940,10 +1938,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From b8b17843c77a0bea97ad30f1c22fe87160b4a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 11/20] fix: evaluate every use of the join filter on its own

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3208c9a..4b9817b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2043,6 +2043,8 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
+        // The result of `join` consumes its input, it can be displayed only once:
+        Expr::Filter(Filter { name: "join", .. }) => false,
         Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-- 
2.43.0


From ca6c4eddbd973939e3dab6463d5add652e591cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:51 +0000
Subject: [PATCH 12/20] fix: pass a filter block's content to its innermost
 filter only

---
 askama_derive/src/generator.rs | 16 +++++++++-------
 askama_parser/src/node.rs      |  6 +++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 4b9817b..863b078 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2091,7 +2091,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2102,13 +2102,15 @@ fn median(sizes: &mut [usize]) -> usize {
 /// ```
 ///
 /// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
+/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally put our
+/// variable in place of the placeholder, which is the first argument to the `"a"` call.
 fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            insert_first_filter_argument(arguments, var_name)
+        }
+        Some(Expr::Generated(name)) => *name = var_name,
+        _ => args.insert(0, Expr::Generated(var_name)),
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..70510d3 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,13 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The content of the block is the first argument of the innermost filter. The placeholder
+        // is filled in when generating the code.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0


From d32be79c1bdfab994047ee0a94671c89a833fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 13/20] fix: minimize whitespace between two tags when the
 first one asks for it

---
 askama_derive/src/generator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 863b078..bbc305e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1144,7 +1144,15 @@ impl<'a> Generator<'a> {
                 WhitespaceHandling::Suppress => {}
                 _ if val.is_empty() => {
                     assert!(rws.is_empty());
-                    self.next_ws = Some(lws);
+                    // The tag in front may already ask to minimize the whitespace,
+                    // independently of what the tag behind it asks for
+                    self.next_ws = Some(match self.skip_ws {
+                        WhitespaceHandling::Minimize => match lws.contains('\n') {
+                            true => "\n",
+                            false => " ",
+                        },
+                        _ => lws,
+                    });
                 }
                 WhitespaceHandling::Preserve => self.buf_writable.push(Writable::Lit(lws)),
                 WhitespaceHandling::Minimize => {
-- 
2.43.0


From a6b73df8b2442124fce1e1dc09697ef3694028ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 14/20] fix: allow blocks nested more than 63 levels deep

---
 askama_derive/src/generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index bbc305e..12bfe0e 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1023,7 +1023,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1831,15 +1831,15 @@ impl<'a> Generator<'a> {
 struct Buffer {
     // The buffer to generate the code into
     buf: String,
-    // The current level of indentation (in spaces)
-    indent: u8,
+    // The current level of indentation
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 5d88d3a39460a3e91a615fb8ebd398ae1f8211b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 15/20] fix: report recursive includes, macros and blocks
 instead of overflowing the stack

---
 askama_derive/src/generator.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 12bfe0e..bdf63cc 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -17,6 +17,10 @@ use parser::node::{
 use parser::{Expr, Filter, Node};
 use quote::quote;
 
+// How deep the bodies of a template, including those of the includes, macros and blocks it uses, may
+// be nested
+const MAX_DEPTH: usize = 256;
+
 pub(crate) struct Generator<'a> {
     // The template input state: original struct AST and attributes
     input: &'a TemplateInput<'a>,
@@ -39,6 +43,8 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // Number of bodies that are currently being generated inside of each other
+    depth: usize,
 }
 
 impl<'a> Generator<'a> {
@@ -61,6 +67,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            depth: 0,
         }
     }
 
@@ -252,6 +259,12 @@ impl<'a> Generator<'a> {
         buf: &mut Buffer,
         level: AstLevel,
     ) -> Result<usize, CompileError> {
+        // Includes, macros and blocks that contain themselves would be generated forever
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            return Err("includes, macros or blocks are nested too deeply or recursive".into());
+        }
+
         let mut size_hint = 0;
         for n in nodes {
             match *n {
@@ -334,6 +347,7 @@ impl<'a> Generator<'a> {
 
             size_hint += self.write_buf_writable(buf)?;
         }
+        self.depth -= 1;
         Ok(size_hint)
     }
 
@@ -815,6 +829,7 @@ impl<'a> Generator<'a> {
         };
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
+        child.depth = self.depth;
         child.buf_writable.discard = self.buf_writable.discard;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
@@ -969,6 +984,7 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
+        child.depth = self.depth;
         let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
-- 
2.43.0


From 845b876cc379213874e7797545dded1e3a7df986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 16/20] fix: reject blocks nested in a block of the same name
 instead of dropping content

---
 askama_derive/src/heritage.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 20a2885..aa8003a 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -56,10 +56,11 @@ impl Context<'_> {
         let mut blocks = HashMap::new();
         let mut macros = HashMap::new();
         let mut imports = HashMap::new();
-        let mut nested = vec![nodes];
+        // The bodies to visit, with the names of the blocks around them
+        let mut nested = vec![(nodes, vec![])];
         let mut top = true;
 
-        while let Some(nodes) = nested.pop() {
+        while let Some((nodes, outer)) = nested.pop() {
             for n in nodes {
                 match n {
                     Node::Extends(e) if top => match extends {
@@ -81,25 +82,32 @@ impl Context<'_> {
                         );
                     }
                     Node::BlockDef(b) => {
+                        if outer.contains(&b.name) {
+                            return Err(
+                                format!("cannot define recursive blocks ({})", b.name).into()
+                            );
+                        }
                         blocks.insert(b.name, b);
-                        nested.push(&b.nodes);
+                        let mut outer = outer.clone();
+                        outer.push(b.name);
+                        nested.push((&b.nodes, outer));
                     }
                     Node::If(i) => {
                         for cond in &i.branches {
-                            nested.push(&cond.nodes);
+                            nested.push((&cond.nodes, outer.clone()));
                         }
                     }
                     Node::Loop(l) => {
-                        nested.push(&l.body);
-                        nested.push(&l.else_nodes);
+                        nested.push((&l.body, outer.clone()));
+                        nested.push((&l.else_nodes, outer.clone()));
                     }
                     Node::Match(Match { arms, .. }) => {
                         for arm in arms {
-                            nested.push(&arm.nodes);
+                            nested.push((&arm.nodes, outer.clone()));
                         }
                     }
                     Node::FilterBlock(f) => {
-                        nested.push(&f.nodes);
+                        nested.push((&f.nodes, outer.clone()));
                     }
                     _ => {}
                 }
-- 
2.43.0


From cd21a23cc87869f6fc5df903308280f013213246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 17/20] fix: render exactly the requested block, no matter
 where it is used

---
 askama_derive/src/generator.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index bdf63cc..5f3ef51 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -116,10 +116,34 @@ impl<'a> Generator<'a> {
             }
         }
 
-        let size_hint = if let Some(heritage) = self.heritage {
-            self.handle(heritage.root, heritage.root.nodes, buf, AstLevel::Top)
-        } else {
-            self.handle(ctx, ctx.nodes, buf, AstLevel::Top)
+        let size_hint = match (self.heritage, self.input.block) {
+            (Some(heritage), Some(block)) => {
+                // Only this block gets rendered, no matter where it is used. It can use the macros
+                // and imports of the template it is defined in, and of the ancestors of that.
+                let mut block_ctx = match heritage.blocks.get(block).and_then(|defs| defs.first()) {
+                    Some((block_ctx, _)) => (*block_ctx).clone(),
+                    None => return Err(format!("cannot find block {block}").into()),
+                };
+                while let Some(path) = block_ctx.extends.take() {
+                    let parent = &self.contexts[&path];
+                    for (name, mac) in &parent.macros {
+                        block_ctx.macros.entry(name).or_insert(mac);
+                    }
+                    for (name, import) in &parent.imports {
+                        block_ctx
+                            .imports
+                            .entry(name)
+                            .or_insert_with(|| import.clone());
+                    }
+                    block_ctx.extends.clone_from(&parent.extends);
+                }
+                self.write_block(&block_ctx, buf, Some(block), Ws(None, None))
+            }
+            (None, Some(block)) => return Err(format!("cannot find block {block}").into()),
+            (Some(heritage), None) => {
+                self.handle(heritage.root, heritage.root.nodes, buf, AstLevel::Top)
+            }
+            (None, None) => self.handle(ctx, ctx.nodes, buf, AstLevel::Top),
         }?;
 
         self.flush_ws(Ws(None, None));
-- 
2.43.0


From 2adcbdd90a22ffcea5b5ff1c8568886a37a08a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 18/20] fix: find includes in macros relative to the template
 defining the macro

---
 askama_derive/src/generator.rs | 18 ++++++++++++------
 askama_derive/src/heritage.rs  |  5 +++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5f3ef51..9fa0987 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -127,7 +127,7 @@ impl<'a> Generator<'a> {
                 while let Some(path) = block_ctx.extends.take() {
                     let parent = &self.contexts[&path];
                     for (name, mac) in &parent.macros {
-                        block_ctx.macros.entry(name).or_insert(mac);
+                        block_ctx.macros.entry(name).or_insert(*mac);
                     }
                     for (name, import) in &parent.imports {
                         block_ctx
@@ -605,6 +605,7 @@ impl<'a> Generator<'a> {
             return self.write_block(ctx, buf, None, ws);
         }
 
+        let macro_ctx;
         let (def, own_ctx) = match scope {
             Some(s) => {
                 let path = ctx.imports.get(s).ok_or_else(|| {
@@ -614,17 +615,22 @@ impl<'a> Generator<'a> {
                     .contexts
                     .get(path)
                     .ok_or_else(|| CompileError::from(format!("context for {path:?} not found")))?;
-                let def = mctx.macros.get(name).ok_or_else(|| {
+                let (def, _) = *mctx.macros.get(name).ok_or_else(|| {
                     CompileError::from(format!("macro {name:?} not found in scope {s:?}"))
                 })?;
                 (def, mctx)
             }
             None => {
-                let def = ctx
+                let (def, path) = *ctx
                     .macros
                     .get(name)
                     .ok_or_else(|| CompileError::from(format!("macro {name:?} not found")))?;
-                (def, ctx)
+                // The paths inside of the macro are relative to the template that defines it
+                macro_ctx = Context {
+                    path: Some(path),
+                    ..ctx.clone()
+                };
+                (def, &macro_ctx)
             }
         };
 
@@ -830,7 +836,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let child_ctx = &mut self.contexts[&path].clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
@@ -986,7 +992,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let mut child_ctx = child_ctx.clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index aa8003a..43eda75 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -42,7 +42,8 @@ pub(crate) struct Context<'a> {
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
-    pub(crate) macros: HashMap<&'a str, &'a Macro<'a>>,
+    // The macros, with the path of the template each of them is defined in
+    pub(crate) macros: HashMap<&'a str, (&'a Macro<'a>, &'a Path)>,
     pub(crate) imports: HashMap<&'a str, Rc<Path>>,
 }
 
@@ -70,7 +71,7 @@ impl Context<'_> {
                         }
                     },
                     Node::Macro(m) if top => {
-                        macros.insert(m.name, m);
+                        macros.insert(m.name, (m, path));
                     }
                     Node::Import(import) if top => {
                         let path = config.find_template(import.path, Some(path))?;
-- 
2.43.0


From 8d366ec138497e44c9e973870431ee6ac9771a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 19/20] fix: report a parse error at the start of a line on
 that line

---
 askama_parser/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..f48f4b3 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -111,7 +111,11 @@ impl<'a> Ast<'a> {
             _ => format!("{source_after:?}"),
         };
 
-        let (row, last_line) = source_before.lines().enumerate().last().unwrap_or_default();
+        let (row, last_line) = source_before
+            .split('\n')
+            .enumerate()
+            .last()
+            .unwrap_or_default();
         let column = last_line.chars().count();
         Err(ParseError::Details {
             message,
-- 
2.43.0


From c3f708df344aeab095939a54866ad24351a46841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:50 +0000
Subject: [PATCH 20/20] fix: read names that do not start with an uppercase
 letter as variables

A single name was taken for a path unless its first character was
lowercase, so that variables and fields whose names begin with an
underscore, or with a letter that has no case, could not be used.
---
 askama_parser/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index f48f4b3..cc5266f 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -520,7 +520,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
+        (None, name, []) if name.chars().next().map_or(true, |c| !c.is_uppercase()) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0

