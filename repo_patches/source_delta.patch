From 323a46bbd76e9705ba38ba500111735f4c90bc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 01/39] Hook: askama_derive can be built as an ordinary library
 with --cfg askama_verif

---
 askama_derive/src/lib.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index e347001..9fc6d82 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -1,11 +1,16 @@
 #![deny(elided_lifetimes_in_paths)]
 #![deny(unreachable_pub)]
+// `--cfg askama_verif` builds this crate as an ordinary library (see the end of this file)
+#![allow(unknown_lints, unexpected_cfgs)]
 
 use std::fmt;
 use std::{borrow::Cow, collections::HashMap};
 
+#[cfg(not(askama_verif))]
 use proc_macro::TokenStream;
 use proc_macro2::Span;
+#[cfg(askama_verif)]
+use proc_macro2::TokenStream;
 
 use parser::ParseError;
 
@@ -20,7 +25,10 @@ use input::{Print, TemplateArgs, TemplateInput};
 #[cfg(test)]
 mod tests;
 
-#[proc_macro_derive(Template, attributes(template))]
+#[cfg_attr(
+    not(askama_verif),
+    proc_macro_derive(Template, attributes(template))
+)]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
     match build_template(&ast) {
@@ -190,3 +198,10 @@ const CRATE: &str = if cfg!(feature = "with-actix-web") {
 } else {
     "::askama"
 };
+
+/// Lets `derive_template()` be called as an ordinary function, outside of a compiler run
+#[cfg(askama_verif)]
+mod syn {
+    pub(crate) use ::syn::parse2 as parse;
+    pub(crate) use ::syn::*;
+}
-- 
2.43.0


From 54390a9bed2357992e55ad562676559e28226e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 02/39] fix: a let that shadows a field does not change earlier
 outputs

The pending output expressions were only flushed if the new variable
shadowed another local variable, so an output before the let that named the
field of the same name was evaluated with the variable instead. The lookup
that was removed also missed variables named like Rust keywords.
---
 askama_derive/src/generator.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..dc10bf0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -838,8 +838,8 @@ impl<'a> Generator<'a> {
             Target::Name(name) => {
                 let name = normalize_identifier(name);
                 match self.locals.get(&Cow::Borrowed(name)) {
-                    // declares a new variable
-                    None => Ok(false),
+                    // declares a new variable, which may shadow a field of the context
+                    None => Ok(true),
                     // an initialized variable gets shadowed
                     Some(meta) if meta.initialized => Ok(true),
                     // initializes a variable that was introduced in a LetDecl before
@@ -889,7 +889,6 @@ impl<'a> Generator<'a> {
         }
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From 356cabc9fbde2188819fb68a19f2327a05f9ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 03/39] fix: filter blocks apply to everything their body
 renders, and only to that

The body was put together from the pending output alone. Everything that was
already written by control structures, includes, macro calls or blocks inside
of it went unfiltered to the output, an empty body dropped the text before the
block, and the output before the block was evaluated after its body.
---
 askama_derive/src/generator.rs | 48 ++++++++++++----------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index dc10bf0..72535fa 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -719,36 +719,26 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
+        // Whatever comes before the block must be written before its content gets evaluated.
+        let mut size_hint = self.write_buf_writable(buf)?;
+
+        // Collect everything that is written inside of the block in a string.
+        let writer_name = format!("{var_name}_writer");
+        buf.writeln(&format!(
+            "let mut {var_name} = ::std::string::String::new();"
+        ))?;
+        buf.writeln(&format!("let {writer_name} = &mut *writer;"))?;
+        buf.writeln(&format!(
+            "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+        ))?;
+        self.locals
+            .insert(Cow::Owned(var_name.clone()), LocalMeta::initialized());
 
         self.prepare_ws(filter.ws1);
-        let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        buf.writeln(&format!("let writer = {writer_name};"))?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
@@ -765,10 +755,6 @@ impl<'a> Generator<'a> {
             .push(Writable::Generated(filter_buf.buf, wrap));
         self.prepare_ws(filter.ws2);
 
-        // We don't forget to add the created variable into the list of variables in the scope.
-        self.locals
-            .insert(Cow::Owned(var_name), LocalMeta::initialized());
-
         Ok(size_hint)
     }
 
-- 
2.43.0


From 809a6754b671c5f800864247af8459f9defbd55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 04/39] fix: variables of a block or an included template end
 with it

The generated let statements shared one Rust scope with the surrounding
template. The pending output of a block is now always written at its end, too:
as a block fragment it was lost if something else was written after it in a
surrounding block.
---
 askama_derive/src/generator.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 72535fa..04ddc21 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -812,8 +812,11 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        // The variables of the included template must not leak into this template.
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
@@ -958,14 +961,14 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
-
+        // The variables of the block must not leak into the surrounding template.
+        buf.writeln("{")?;
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
         child.flush_ws(def.ws2);
+        // Need to flush the buffer before popping the variable stack, and before restoring the
+        // original discarding state
+        size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1929,10 +1932,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From 1de6e7c0ecf09477bd132bc854be7a2cd963434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 05/39] fix: whitespace between two tags follows the stronger
 one if that is the first

A span of only whitespace after a minimizing tag was kept as a whole if the
next tag preserves whitespace.
---
 askama_derive/src/generator.rs | 14 +++++++++-----
 askama_derive/src/lib.rs       |  5 +----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 04ddc21..60289e0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -876,9 +876,7 @@ impl<'a> Generator<'a> {
             // to ensure the old variable is used.
             self.write_buf_writable(buf)?;
         }
-        if shadowed
-            || !matches!(l.var, Target::Name(_))
-        {
+        if shadowed || !matches!(l.var, Target::Name(_)) {
             buf.write("let ");
         }
 
@@ -1136,9 +1134,15 @@ impl<'a> Generator<'a> {
         if !lws.is_empty() {
             match self.skip_ws {
                 WhitespaceHandling::Suppress => {}
-                _ if val.is_empty() => {
+                handling if val.is_empty() => {
                     assert!(rws.is_empty());
-                    self.next_ws = Some(lws);
+                    self.next_ws = Some(match handling {
+                        WhitespaceHandling::Minimize => match lws.contains('\n') {
+                            true => "\n",
+                            false => " ",
+                        },
+                        _ => lws,
+                    });
                 }
                 WhitespaceHandling::Preserve => self.buf_writable.push(Writable::Lit(lws)),
                 WhitespaceHandling::Minimize => {
diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index 9fc6d82..cf9bcbd 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -25,10 +25,7 @@ use input::{Print, TemplateArgs, TemplateInput};
 #[cfg(test)]
 mod tests;
 
-#[cfg_attr(
-    not(askama_verif),
-    proc_macro_derive(Template, attributes(template))
-)]
+#[cfg_attr(not(askama_verif), proc_macro_derive(Template, attributes(template)))]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
     match build_template(&ast) {
-- 
2.43.0


From 3307134c5604df570eccabf81b2f6168cb369396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 06/39] fix: the result of the join filter is not displayed
 twice

Equal expressions next to each other are evaluated once and displayed several
times, but the result of join is empty when it is displayed again.
---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 60289e0..3b48652 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2041,6 +2041,8 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
+        // The result of `join` can only be displayed once:
+        Expr::Filter(Filter { name: "join", .. }) => false,
         Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-- 
2.43.0


From 7a982ea9a54bd6db79073e6e234f1aa3041d8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 07/39] fix: macro parameters mean their arguments at the call
 site

An argument that is a variable is substituted by name. That name was resolved
after the earlier parameters were already declared, and captured by variables,
loops and patterns of the same name in the macro. Parameters that are named
like Rust keywords, or that are assigned to in the macro, did not compile.
---
 askama_derive/src/generator.rs | 106 ++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 35 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3b48652..c43456c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -598,7 +598,6 @@ impl<'a> Generator<'a> {
 
         let mut names = Buffer::new(0);
         let mut values = Buffer::new(0);
-        let mut is_first_variable = true;
         if args.len() != def.args.len() {
             return Err(CompileError::from(format!(
                 "macro {name:?} expected {} argument{}, found {}",
@@ -632,14 +631,19 @@ impl<'a> Generator<'a> {
         // * If there is one, we add it and move to the next argument.
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
+        //
+        // The parameters must not be declared before every argument is resolved, because the
+        // arguments may refer to variables of the caller with the same names.
         let mut allow_positional = true;
+        let mut references = Vec::new();
+        let mut variables = Vec::new();
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
-                Some(expr) => {
+                Some(Expr::NamedArgument(_, expr)) => {
                     allow_positional = false;
                     expr
                 }
-                None => {
+                _ => {
                     if !allow_positional {
                         // If there is already at least one named argument, then it's not allowed
                         // to use unnamed ones at this point anymore.
@@ -656,39 +660,44 @@ impl<'a> Generator<'a> {
                 // don't reintroduce a new variable. This is
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
-                    let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    references.push((arg, self.locals.resolve_or_self(name)));
                 }
-                Expr::Attr(obj, attr) => {
+                // The loop variables are copied, because the macro can have loops of its own.
+                Expr::Attr(obj, attr) if **obj != Expr::Var("loop") => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    references.push((arg, var));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
                 // multiple times, e.g. in the case of macro
                 // parameters being used multiple times.
                 _ => {
-                    if is_first_variable {
-                        is_first_variable = false
-                    } else {
-                        names.write(", ");
+                    if !values.buf.is_empty() {
                         values.write(", ");
                     }
-                    names.write(arg);
-
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    variables.push(arg);
                 }
             }
         }
 
+        for (arg, var) in references {
+            let arg = normalize_identifier(arg);
+            self.locals
+                .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+        }
+        for arg in variables {
+            if !names.buf.is_empty() {
+                names.write(", ");
+            }
+            names.write(&self.locals.declare(normalize_identifier(arg), true));
+        }
+
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
@@ -876,11 +885,20 @@ impl<'a> Generator<'a> {
             // to ensure the old variable is used.
             self.write_buf_writable(buf)?;
         }
-        if shadowed || !matches!(l.var, Target::Name(_)) {
-            buf.write("let ");
+        match l.var {
+            // initializes a variable that was introduced in a LetDecl before
+            Target::Name(name) if !shadowed => {
+                let name = normalize_identifier(name);
+                let var = self.locals.resolve_or_self(name);
+                buf.write(&var);
+                self.locals
+                    .insert(Cow::Borrowed(name), LocalMeta::with_ref(var));
+            }
+            _ => {
+                buf.write("let ");
+                self.visit_target(buf, true, true, &l.var);
+            }
         }
-
-        self.visit_target(buf, true, true, &l.var);
         buf.writeln(&format!(" = {};", &expr_buf.buf))
     }
 
@@ -1692,13 +1710,7 @@ impl<'a> Generator<'a> {
             }
             Target::Name(name) => {
                 let name = normalize_identifier(name);
-                match initialized {
-                    true => self
-                        .locals
-                        .insert(Cow::Borrowed(name), LocalMeta::initialized()),
-                    false => self.locals.insert_with_default(Cow::Borrowed(name)),
-                }
-                buf.write(name);
+                buf.write(&self.locals.declare(name, initialized));
             }
             Target::OrChain(targets) => match targets.first() {
                 None => buf.write("_"),
@@ -1946,13 +1958,6 @@ where
         // compile error "identifier `a` used more than once".
     }
 
-    fn insert_with_default(&mut self, key: K)
-    where
-        V: Default,
-    {
-        self.insert(key, V::default());
-    }
-
     fn push(&mut self) {
         self.scopes.push(HashMap::new());
     }
@@ -1963,7 +1968,38 @@ where
     }
 }
 
-impl MapChain<'_, Cow<'_, str>, LocalMeta> {
+impl<'a> MapChain<'_, Cow<'a, str>, LocalMeta> {
+    /// Adds a new variable to the current scope, and returns its name in the generated code.
+    ///
+    /// It's the name of the variable, unless a macro argument that is still in use refers to
+    /// another variable of that name.
+    fn declare(&mut self, name: &'a str, initialized: bool) -> String {
+        let mut var = name.to_string();
+        for id in 0.. {
+            if !self.is_referenced(name, &var) {
+                break;
+            }
+            var = format!("__{}_{id}", name.trim_start_matches("r#"));
+        }
+        let refs = (var != name).then(|| var.clone());
+        self.insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
+        var
+    }
+
+    /// Returns `true` if a variable other than `name` refers to the identifier `var`.
+    fn is_referenced(&self, name: &str, var: &str) -> bool {
+        let is_ident = |c: char| c == '_' || c == '#' || c.is_alphanumeric();
+        let refers = |refs: &String| {
+            refs.match_indices(var).any(|(start, _)| {
+                !refs[..start].ends_with(|c| c == '.' || is_ident(c))
+                    && !refs[start + var.len()..].starts_with(is_ident)
+            })
+        };
+        let mut entries = self.scopes.iter().flatten();
+        entries.any(|(key, meta)| key != name && meta.refs.iter().any(refers))
+            || self.parent.map_or(false, |p| p.is_referenced(name, var))
+    }
+
     fn resolve(&self, name: &str) -> Option<String> {
         let name = normalize_identifier(name);
         self.get(&Cow::Borrowed(name)).map(|meta| match &meta.refs {
-- 
2.43.0


From e34752896c891a16168ce2be35f6bb3fb6d76e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 08/39] fix: center pads every value

The width was passed on to the Display implementation of the value, and most
of them ignore it, the one of the truncate filter for example.
---
 askama/src/filters/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..18df304 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -498,13 +498,22 @@ struct Center<T> {
 impl<T: fmt::Display> fmt::Display for Center<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if self.width < MAX_LEN {
-            write!(f, "{: ^1$}", self.src, self.width)
+            // Not every implementation of `Display` pads its output.
+            let src = try_to_string(&self.src)?;
+            write!(f, "{: ^1$}", src, self.width)
         } else {
             write!(f, "{}", self.src)
         }
     }
 }
 
+/// Like [`ToString::to_string()`], but does not panic if the value cannot be displayed
+fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let mut result = String::new();
+    write!(result, "{s}")?;
+    Ok(result)
+}
+
 /// Count the words in that string.
 #[inline]
 pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-- 
2.43.0


From fd6aca6b88b6888a76e7221f2593863e3d3f6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:48 +0000
Subject: [PATCH 09/39] fix: paragraphbreaks removes empty paragraphs, and only
 these

Empty paragraphs at the start and the end were kept, and tags in the value
itself were removed.
---
 askama/src/filters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 18df304..25e285d 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,8 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let paragraphs = s.split("\n\n").filter(|paragraph| !paragraph.is_empty());
+        Ok(paragraphs.map(|p| format!("<p>{p}</p>")).collect())
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From d8a8637a7a934b0f02bbdd5a8ba314eca2c4bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 10/39] fix: filters report values that cannot be displayed
 instead of panicking

---
 askama/src/filters/mod.rs | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 25e285d..c83bdcc 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -219,21 +219,21 @@ pub fn format() {}
 /// A single newline becomes an HTML line break `<br>` and a new line
 /// followed by a blank line becomes a paragraph break `<p>`.
 #[inline]
-pub fn linebreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaks(s: String) -> Result<String, Infallible> {
+pub fn linebreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaks(s: String) -> Result<String, fmt::Error> {
         let linebroken = s.replace("\n\n", "</p><p>").replace('\n', "<br/>");
         Ok(format!("<p>{linebroken}</p>"))
     }
-    linebreaks(s.to_string())
+    linebreaks(try_to_string(s)?)
 }
 
 /// Converts all newlines in a piece of plain text to HTML line breaks
 #[inline]
-pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn linebreaksbr(s: String) -> Result<String, Infallible> {
+pub fn linebreaksbr(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn linebreaksbr(s: String) -> Result<String, fmt::Error> {
         Ok(s.replace('\n', "<br/>"))
     }
-    linebreaksbr(s.to_string())
+    linebreaksbr(try_to_string(s)?)
 }
 
 /// Replaces only paragraph breaks in plain text with appropriate HTML
@@ -242,41 +242,41 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 /// Paragraph tags only wrap content; empty paragraphs are removed.
 /// No `<br/>` tags are added.
 #[inline]
-pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn paragraphbreaks(s: String) -> Result<String, Infallible> {
+pub fn paragraphbreaks(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn paragraphbreaks(s: String) -> Result<String, fmt::Error> {
         let paragraphs = s.split("\n\n").filter(|paragraph| !paragraph.is_empty());
         Ok(paragraphs.map(|p| format!("<p>{p}</p>")).collect())
     }
-    paragraphbreaks(s.to_string())
+    paragraphbreaks(try_to_string(s)?)
 }
 
 /// Converts to lowercase
 #[inline]
-pub fn lower(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn lower(s: String) -> Result<String, Infallible> {
+pub fn lower(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn lower(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_lowercase())
     }
-    lower(s.to_string())
+    lower(try_to_string(s)?)
 }
 
 /// Alias for the `lower()` filter
 #[inline]
-pub fn lowercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn lowercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     lower(s)
 }
 
 /// Converts to uppercase
 #[inline]
-pub fn upper(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn upper(s: String) -> Result<String, Infallible> {
+pub fn upper(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn upper(s: String) -> Result<String, fmt::Error> {
         Ok(s.to_uppercase())
     }
-    upper(s.to_string())
+    upper(try_to_string(s)?)
 }
 
 /// Alias for the `upper()` filter
 #[inline]
-pub fn uppercase(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
+pub fn uppercase(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
     upper(s)
 }
 
@@ -375,8 +375,8 @@ impl<S: fmt::Display> fmt::Display for TruncateFilter<S> {
 
 /// Indent lines with `width` spaces
 #[inline]
-pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infallible> {
-    fn indent(s: String, width: usize) -> Result<String, Infallible> {
+pub fn indent(s: impl fmt::Display, width: usize) -> Result<impl fmt::Display, fmt::Error> {
+    fn indent(s: String, width: usize) -> Result<String, fmt::Error> {
         if width >= MAX_LEN || s.len() >= MAX_LEN {
             return Ok(s);
         }
@@ -392,7 +392,7 @@ pub fn indent(s: impl ToString, width: usize) -> Result<impl fmt::Display, Infal
         }
         Ok(indented)
     }
-    indent(s.to_string(), width)
+    indent(try_to_string(s)?, width)
 }
 
 #[cfg(feature = "num-traits")]
@@ -470,8 +470,8 @@ where
 
 /// Capitalize a value. The first character will be uppercase, all others lowercase.
 #[inline]
-pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
-    fn capitalize(s: String) -> Result<String, Infallible> {
+pub fn capitalize(s: impl fmt::Display) -> Result<impl fmt::Display, fmt::Error> {
+    fn capitalize(s: String) -> Result<String, fmt::Error> {
         match s.chars().next() {
             Some(c) => {
                 let mut replacement: String = c.to_uppercase().collect();
@@ -481,7 +481,7 @@ pub fn capitalize(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
             _ => Ok(s),
         }
     }
-    capitalize(s.to_string())
+    capitalize(try_to_string(s)?)
 }
 
 /// Centers the value in a field of a given width
@@ -516,18 +516,18 @@ fn try_to_string(s: impl fmt::Display) -> Result<String, fmt::Error> {
 
 /// Count the words in that string.
 #[inline]
-pub fn wordcount(s: impl ToString) -> Result<usize, Infallible> {
-    fn wordcount(s: String) -> Result<usize, Infallible> {
+pub fn wordcount(s: impl fmt::Display) -> Result<usize, fmt::Error> {
+    fn wordcount(s: String) -> Result<usize, fmt::Error> {
         Ok(s.split_whitespace().count())
     }
-    wordcount(s.to_string())
+    wordcount(try_to_string(s)?)
 }
 
 /// Return a title cased version of the value. Words will start with uppercase letters, all
 /// remaining characters are lowercase.
 #[inline]
-pub fn title(s: impl ToString) -> Result<String, Infallible> {
-    let s = s.to_string();
+pub fn title(s: impl fmt::Display) -> Result<String, fmt::Error> {
+    let s = try_to_string(s)?;
     let mut need_capitalization = true;
 
     // Sadly enough, we can't mutate a string when iterating over its chars, likely because it could
-- 
2.43.0


From 87b15c2c19b40654e97a01ba33ce52b058fdada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:29 +0000
Subject: [PATCH 11/39] fix: cyclic inheritance is rejected however long the
 cycle is

Only templates that extend themselves were detected, the compiler got stuck in
an endless loop in every other case.
---
 askama_derive/src/input.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..0ec2b80 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -141,15 +141,11 @@ impl TemplateInput<'_> {
                     match n {
                         Node::Extends(extends) if top => {
                             let extends = self.config.find_template(extends.path, Some(&path))?;
-                            let dependency_path = (path.clone(), extends.clone());
-                            if path == extends {
-                                // We add the path into the graph to have a better looking error.
-                                dependency_graph.push(dependency_path);
-                                return cyclic_graph_error(&dependency_graph);
-                            } else if dependency_graph.contains(&dependency_path) {
+                            // We add the path into the graph to have a better looking error.
+                            dependency_graph.push((path.clone(), extends.clone()));
+                            if is_reachable(&dependency_graph, &extends, &path) {
                                 return cyclic_graph_error(&dependency_graph);
                             }
-                            dependency_graph.push(dependency_path);
                             add_to_check(extends)?;
                         }
                         Node::Macro(m) if top => {
@@ -444,6 +440,23 @@ fn cyclic_graph_error(dependency_graph: &[(Rc<Path>, Rc<Path>)]) -> Result<(), C
     .into())
 }
 
+/// Returns `true` if there is a path, which may be empty, from `start` to `end`
+fn is_reachable(dependency_graph: &[(Rc<Path>, Rc<Path>)], start: &Path, end: &Path) -> bool {
+    let mut pending = vec![start];
+    let mut seen = Vec::new();
+    while let Some(path) = pending.pop() {
+        if path == end {
+            return true;
+        }
+        if !seen.contains(&path) {
+            seen.push(path);
+            let edges = dependency_graph.iter().filter(|edge| &*edge.0 == path);
+            pending.extend(edges.map(|edge| &*edge.1));
+        }
+    }
+    false
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From e933535ec033c9c70f513f2632f17f924ea6a0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 12/39] fix: include finds the template relative to the
 template it is used in

The directory of the root template was used instead if the tag is in a
template that was included, imported or inherited itself.
---
 askama_derive/src/generator.rs | 16 +++++++++-------
 askama_derive/src/heritage.rs  | 10 +++++++---
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c43456c..a6fe0a8 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -567,7 +567,7 @@ impl<'a> Generator<'a> {
             return self.write_block(ctx, buf, None, ws);
         }
 
-        let (def, own_ctx) = match scope {
+        let (&(def, path), own_ctx) = match scope {
             Some(s) => {
                 let path = ctx.imports.get(s).ok_or_else(|| {
                     CompileError::from(format!("no import found for scope {s:?}"))
@@ -703,6 +703,11 @@ impl<'a> Generator<'a> {
             buf.writeln(&format!("let ({}) = ({});", names.buf, values.buf))?;
         }
 
+        // The paths in the macro are relative to the template the macro was defined in.
+        let own_ctx = &Context {
+            path: Some(path),
+            ..own_ctx.clone()
+        };
         let mut size_hint = self.handle(own_ctx, &def.nodes, buf, AstLevel::Nested)?;
 
         self.flush_ws(def.ws2);
@@ -775,10 +780,7 @@ impl<'a> Generator<'a> {
     ) -> Result<usize, CompileError> {
         self.flush_ws(i.ws);
         self.write_buf_writable(buf)?;
-        let path = self
-            .input
-            .config
-            .find_template(i.path, Some(&self.input.path))?;
+        let path = self.input.config.find_template(i.path, ctx.path)?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
@@ -797,7 +799,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let child_ctx = &mut self.contexts[&path].clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
@@ -955,7 +957,7 @@ impl<'a> Generator<'a> {
         // child's ones to preserve this template's context.
         let mut child_ctx = child_ctx.clone();
         for (name, mac) in &ctx.macros {
-            child_ctx.macros.entry(name).or_insert(mac);
+            child_ctx.macros.entry(name).or_insert(*mac);
         }
         for (name, import) in &ctx.imports {
             child_ctx
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..4a03eda 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -38,17 +38,20 @@ type BlockAncestry<'a> = HashMap<&'a str, Vec<(&'a Context<'a>, &'a BlockDef<'a>
 
 #[derive(Default, Clone)]
 pub(crate) struct Context<'a> {
+    /// The template this context belongs to
+    pub(crate) path: Option<&'a Path>,
     pub(crate) nodes: &'a [Node<'a>],
     pub(crate) extends: Option<Rc<Path>>,
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
-    pub(crate) macros: HashMap<&'a str, &'a Macro<'a>>,
+    /// The macros, with the template they were defined in
+    pub(crate) macros: HashMap<&'a str, (&'a Macro<'a>, &'a Path)>,
     pub(crate) imports: HashMap<&'a str, Rc<Path>>,
 }
 
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -68,7 +71,7 @@ impl Context<'_> {
                         }
                     },
                     Node::Macro(m) if top => {
-                        macros.insert(m.name, m);
+                        macros.insert(m.name, (m, path));
                     }
                     Node::Import(import) if top => {
                         let path = config.find_template(import.path, Some(path))?;
@@ -104,6 +107,7 @@ impl Context<'_> {
         }
 
         Ok(Context {
+            path: Some(path),
             nodes,
             extends,
             blocks,
-- 
2.43.0


From 6332980a93093233fb18f9d8bc58d01f47ae7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 13/39] fix: templates that import each other through parent
 directories

Every time around the cycle the path of a template got longer, until the
template could not be found anymore.
---
 askama_derive/src/config.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index aac8123..ec60d90 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -1,5 +1,5 @@
 use std::collections::{BTreeMap, HashSet};
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::{env, fs};
 
@@ -115,14 +115,14 @@ impl<'a> Config<'a> {
         if let Some(root) = start_at {
             let relative = root.with_file_name(path);
             if relative.exists() {
-                return Ok(relative.into());
+                return Ok(without_parents(relative).into());
             }
         }
 
         for dir in &self.dirs {
             let rooted = dir.join(path);
             if rooted.exists() {
-                return Ok(rooted.into());
+                return Ok(without_parents(rooted).into());
             }
         }
 
@@ -284,6 +284,24 @@ where
     vals.iter().map(|s| s.to_string()).collect()
 }
 
+/// Resolves `..` in the path of a template, so that the template is known by one path only.
+fn without_parents(path: PathBuf) -> PathBuf {
+    let mut result = PathBuf::new();
+    for component in path.components() {
+        match (component, result.components().next_back()) {
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                result.pop();
+            }
+            _ => result.push(component),
+        }
+    }
+    // `..` is not the directory the path came from in case that was a symbolic link.
+    match (path.canonicalize(), result.canonicalize()) {
+        (Ok(old), Ok(new)) if old == new => result,
+        _ => path,
+    }
+}
+
 #[allow(clippy::match_wild_err_arm)]
 pub(crate) fn get_template_source(tpl_path: &Path) -> std::result::Result<String, CompileError> {
     match fs::read_to_string(tpl_path) {
-- 
2.43.0


From a49f407a20e3890c2fd2144f066b72f562826d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 14/39] fix: no overflow in the indentation of deeply nested
 templates

---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a6fe0a8..4819116 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1035,7 +1035,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1836,14 +1836,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 843ade6a900dfbb7fa9481bd1b0bcabd0d7c869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 15/39] fix: recursive includes, macros and blocks are reported
 instead of overflowing the stack

---
 askama_derive/src/generator.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 4819116..2503ac0 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -39,8 +39,14 @@ pub(crate) struct Generator<'a> {
     buf_writable: WritableBuffer<'a>,
     // Counter for write! hash named arguments
     named: usize,
+    // How many nodes, macro calls, includes and blocks the current nodes are nested in
+    depth: usize,
 }
 
+// The parser limits how deep the nodes of a single template can be nested. This limit is needed
+// for templates and macros that include or call themselves, directly or not.
+const MAX_DEPTH: usize = 512;
+
 impl<'a> Generator<'a> {
     pub(crate) fn new<'n>(
         input: &'n TemplateInput<'_>,
@@ -61,6 +67,7 @@ impl<'a> Generator<'a> {
                 ..Default::default()
             },
             named: 0,
+            depth: 0,
         }
     }
 
@@ -252,6 +259,11 @@ impl<'a> Generator<'a> {
         buf: &mut Buffer,
         level: AstLevel,
     ) -> Result<usize, CompileError> {
+        self.depth += 1;
+        if self.depth > MAX_DEPTH {
+            return Err("the template is nested too deeply, or it is recursive".into());
+        }
+
         let mut size_hint = 0;
         for n in nodes {
             match *n {
@@ -334,6 +346,7 @@ impl<'a> Generator<'a> {
 
             size_hint += self.write_buf_writable(buf)?;
         }
+        self.depth -= 1;
         Ok(size_hint)
     }
 
@@ -823,6 +836,7 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        child.depth = self.depth;
         // The variables of the included template must not leak into this template.
         buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
@@ -979,6 +993,7 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
+        child.depth = self.depth;
         // The variables of the block must not leak into the surrounding template.
         buf.writeln("{")?;
         let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-- 
2.43.0


From 574b882c2cadfa40a9ca822b5da2e6d36f4cb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 16/39] fix: blocks inside of filter blocks, no panic for
 blocks inside of macros

---
 askama_derive/src/generator.rs | 3 ++-
 askama_derive/src/heritage.rs  | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 2503ac0..ccbd45a 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -959,7 +959,8 @@ impl<'a> Generator<'a> {
         let heritage = self
             .heritage
             .ok_or_else(|| CompileError::from("no block ancestors available"))?;
-        let (child_ctx, def) = *heritage.blocks[cur.0].get(cur.1).ok_or_else(|| {
+        let block = heritage.blocks.get(cur.0).and_then(|defs| defs.get(cur.1));
+        let (child_ctx, def) = *block.ok_or_else(|| {
             CompileError::from(match name {
                 None => format!("no super() block found for block '{}'", cur.0),
                 Some(name) => format!("no block found for name '{name}'"),
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 4a03eda..6288397 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -100,6 +100,9 @@ impl Context<'_> {
                             nested.push(&arm.nodes);
                         }
                     }
+                    Node::FilterBlock(f) => {
+                        nested.push(&f.nodes);
+                    }
                     _ => {}
                 }
             }
-- 
2.43.0


From 78b5829724ed9921705c3e2371cef86cd78de1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:10 +0000
Subject: [PATCH 17/39] fix: the nesting limit does not count targets that were
 already left

---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From c70efbf33141b3e363f1a8fef09704e6ec47a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 18/39] fix: Rust tokens that cannot be parsed are reported
 instead of panicking

---
 askama_derive/src/lib.rs  |  9 +++++++--
 askama_parser/src/expr.rs | 25 ++++++++++++++++---------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index cf9bcbd..f8f7ae2 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -28,8 +28,13 @@ mod tests;
 #[cfg_attr(not(askama_verif), proc_macro_derive(Template, attributes(template)))]
 pub fn derive_template(input: TokenStream) -> TokenStream {
     let ast = syn::parse::<syn::DeriveInput>(input).unwrap();
-    match build_template(&ast) {
-        Ok(source) => source.parse().unwrap(),
+    let tokens = build_template(&ast).and_then(|source| {
+        source.parse().map_err(|err| {
+            CompileError::from(format!("the template contains invalid Rust tokens: {err}"))
+        })
+    });
+    match tokens {
+        Ok(tokens) => tokens,
         Err(e) => {
             let mut e = e.into_compile_error();
             if let Ok(source) = build_skeleton(&ast) {
diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 94f7d40..71fec0d 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -345,21 +345,28 @@ impl<'a> Suffix<'a> {
 
     fn r#macro(i: &'a str) -> ParseResult<'a, Self> {
         fn nested_parenthesis(input: &str) -> ParseResult<'_, ()> {
-            let mut nested = 0;
+            let mut nested = vec![];
             let mut last = 0;
             let mut in_str = false;
             let mut escaped = false;
 
             for (i, c) in input.char_indices() {
-                if !(c == '(' || c == ')') || !in_str {
+                if !matches!(c, '(' | ')' | '[' | ']' | '{' | '}') || !in_str {
                     match c {
-                        '(' => nested += 1,
-                        ')' => {
-                            if nested == 0 {
-                                last = i;
-                                break;
+                        '(' => nested.push(')'),
+                        '[' => nested.push(']'),
+                        '{' => nested.push('}'),
+                        ')' if nested.is_empty() => {
+                            last = i;
+                            break;
+                        }
+                        ')' | ']' | '}' => {
+                            if nested.pop() != Some(c) {
+                                return Err(nom::Err::Error(error_position!(
+                                    &input[i..],
+                                    ErrorKind::SeparatedNonEmptyList
+                                )));
                             }
-                            nested -= 1;
                         }
                         '"' => {
                             if in_str {
@@ -382,7 +389,7 @@ impl<'a> Suffix<'a> {
                 }
             }
 
-            if nested == 0 {
+            if nested.is_empty() {
                 Ok((&input[last..], ()))
             } else {
                 Err(nom::Err::Error(error_position!(
-- 
2.43.0


From 08b0877992b869f01d5cc22c3dc27abe557dd89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 19/39] fix: report missing sources and unknown attribute
 arguments instead of panicking

---
 askama_derive/src/input.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 0ec2b80..c5d2204 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -48,7 +48,7 @@ impl TemplateInput<'_> {
         // of `ext` is merged into a synthetic `path` value here.
         let source = source
             .as_ref()
-            .expect("template path or source not found in attributes");
+            .ok_or_else(|| CompileError::from("template path or source not found in attributes"))?;
         let path = match (&source, &ext) {
             (Source::Path(path), _) => config.find_template(path, None)?,
             (&Source::Source(_), Some(ext)) => {
@@ -255,7 +255,13 @@ impl TemplateArgs {
 
             let ident = match pair.path.get_ident() {
                 Some(ident) => ident,
-                None => unreachable!("not possible in syn::Meta::NameValue(…)"),
+                None => {
+                    return Err(format!(
+                        "unsupported attribute argument {:?}",
+                        pair.to_token_stream()
+                    )
+                    .into())
+                }
             };
 
             let value = match pair.value {
-- 
2.43.0


From fdef29e3d76c1b080e4899b51bc29bcef1a4a804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 20/39] fix: the generated code does not depend on the order of
 a hash map

---
 askama_derive/src/generator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ccbd45a..b0f3854 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -98,7 +98,9 @@ impl<'a> Generator<'a> {
         buf.writeln("::Result<()> {")?;
 
         // Make sure the compiler understands that the generated code depends on the template files.
-        for path in self.contexts.keys() {
+        let mut paths: Vec<_> = self.contexts.keys().collect();
+        paths.sort();
+        for path in paths {
             // Skip the fake path of templates defined in rust source.
             let path_is_valid = match self.input.source {
                 Source::Path(_) => true,
-- 
2.43.0


From 49c17dae09b6c907b1fe316d794fe1108557ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:20 +0000
Subject: [PATCH 21/39] fix: parse errors at the start of a line are reported
 for that line

---
 askama_parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..e589286 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -111,7 +111,8 @@ impl<'a> Ast<'a> {
             _ => format!("{source_after:?}"),
         };
 
-        let (row, last_line) = source_before.lines().enumerate().last().unwrap_or_default();
+        let row = source_before.matches('\n').count();
+        let last_line = source_before.rsplit('\n').next().unwrap_or_default();
         let column = last_line.chars().count();
         Err(ParseError::Details {
             message,
-- 
2.43.0


From af1017df7f5c6d1a1dbfa8301b97572f16ddc24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 22/39] fix: the axum response of a template that fails to
 render is a server error

---
 askama_axum/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..75cf2a3 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,7 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| (http::StatusCode::INTERNAL_SERVER_ERROR, err.to_string()))
         .into_response()
 }
 
-- 
2.43.0


From c9b34f57d88a413daca31f2a0f44a8ed3de4b4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 23/39] fix: a variable that every branch has initialized can
 be shadowed afterwards

---
 askama_derive/src/generator.rs | 69 +++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index b0f3854..db1b633 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1,5 +1,6 @@
 use std::borrow::Cow;
 use std::collections::hash_map::{Entry, HashMap};
+use std::collections::HashSet;
 use std::ops::Deref;
 use std::path::Path;
 use std::rc::Rc;
@@ -361,11 +362,12 @@ impl<'a> Generator<'a> {
         let mut flushed = 0;
         let mut arm_sizes = Vec::new();
         let mut has_else = false;
+        let mut assigned = None;
         for (i, cond) in i.branches.iter().enumerate() {
             self.handle_ws(cond.ws);
             flushed += self.write_buf_writable(buf)?;
             if i > 0 {
-                self.locals.pop();
+                self.locals.pop_branch(&mut assigned);
             }
 
             self.locals.push();
@@ -424,9 +426,11 @@ impl<'a> Generator<'a> {
         flushed += self.write_buf_writable(buf)?;
         buf.writeln("}")?;
 
-        self.locals.pop();
+        self.locals.pop_branch(&mut assigned);
 
-        if !has_else {
+        if has_else {
+            self.locals.assign_all(assigned);
+        } else {
             arm_sizes.push(0);
         }
         Ok(flushed + median(&mut arm_sizes))
@@ -449,6 +453,7 @@ impl<'a> Generator<'a> {
         self.flush_ws(ws1);
         let flushed = self.write_buf_writable(buf)?;
         let mut arm_sizes = Vec::new();
+        let mut assigned = None;
 
         let expr_code = self.visit_expr_root(expr)?;
         buf.writeln(&format!("match &{expr_code} {{"))?;
@@ -461,7 +466,7 @@ impl<'a> Generator<'a> {
                 arm_sizes.push(arm_size + self.write_buf_writable(buf)?);
 
                 buf.writeln("}")?;
-                self.locals.pop();
+                self.locals.pop_branch(&mut assigned);
             }
 
             self.locals.push();
@@ -474,7 +479,8 @@ impl<'a> Generator<'a> {
         self.handle_ws(ws2);
         arm_sizes.push(arm_size + self.write_buf_writable(buf)?);
         buf.writeln("}")?;
-        self.locals.pop();
+        self.locals.pop_branch(&mut assigned);
+        self.locals.assign_all(assigned);
 
         buf.writeln("}")?;
 
@@ -907,10 +913,8 @@ impl<'a> Generator<'a> {
             // initializes a variable that was introduced in a LetDecl before
             Target::Name(name) if !shadowed => {
                 let name = normalize_identifier(name);
-                let var = self.locals.resolve_or_self(name);
-                buf.write(&var);
-                self.locals
-                    .insert(Cow::Borrowed(name), LocalMeta::with_ref(var));
+                buf.write(&self.locals.resolve_or_self(name));
+                self.locals.assign(Cow::Borrowed(name));
             }
             _ => {
                 buf.write("let ");
@@ -1919,6 +1923,8 @@ impl Buffer {
 pub(crate) struct LocalMeta {
     refs: Option<String>,
     initialized: bool,
+    /// The scope initializes a variable that was declared in an outer scope.
+    assigned: bool,
 }
 
 impl LocalMeta {
@@ -1926,6 +1932,7 @@ impl LocalMeta {
         Self {
             refs: None,
             initialized: true,
+            assigned: false,
         }
     }
 
@@ -1933,6 +1940,7 @@ impl LocalMeta {
         Self {
             refs: Some(refs),
             initialized: true,
+            assigned: false,
         }
     }
 }
@@ -2002,10 +2010,51 @@ impl<'a> MapChain<'_, Cow<'a, str>, LocalMeta> {
             var = format!("__{}_{id}", name.trim_start_matches("r#"));
         }
         let refs = (var != name).then(|| var.clone());
-        self.insert(Cow::Borrowed(name), LocalMeta { refs, initialized });
+        let scope = self.scopes.last_mut().unwrap();
+        let assigned = scope.get(name).map_or(false, |meta| meta.assigned);
+        let meta = LocalMeta {
+            refs,
+            initialized,
+            assigned,
+        };
+        self.insert(Cow::Borrowed(name), meta);
         var
     }
 
+    /// Initializes a variable that was declared before, in this or in an outer scope.
+    fn assign(&mut self, name: Cow<'a, str>) {
+        let refs = self.resolve(&name);
+        let scope = self.scopes.last_mut().unwrap();
+        let meta = LocalMeta {
+            refs,
+            initialized: true,
+            assigned: scope.get(&name).map_or(true, |meta| meta.assigned),
+        };
+        scope.insert(name, meta);
+    }
+
+    /// Leaves the scope of a branch, and keeps in `assigned` only the variables of outer scopes
+    /// that are initialized in this branch and all branches before.
+    fn pop_branch(&mut self, assigned: &mut Option<HashSet<Cow<'a, str>>>) {
+        let scope = self.scopes.last_mut().unwrap();
+        let is_assigned = |name: &str| scope.get(name).map_or(false, |meta| meta.assigned);
+        match assigned {
+            Some(names) => names.retain(|name| is_assigned(name)),
+            None => {
+                let names = scope.keys().filter(|name| is_assigned(name));
+                *assigned = Some(names.cloned().collect());
+            }
+        }
+        self.pop();
+    }
+
+    /// Initializes the variables that were initialized in every branch.
+    fn assign_all(&mut self, assigned: Option<HashSet<Cow<'a, str>>>) {
+        for name in assigned.into_iter().flatten() {
+            self.assign(name);
+        }
+    }
+
     /// Returns `true` if a variable other than `name` refers to the identifier `var`.
     fn is_referenced(&self, name: &str, var: &str) -> bool {
         let is_ident = |c: char| c == '_' || c == '#' || c.is_alphanumeric();
-- 
2.43.0


From bc552f95fc7017ac11e52ce3f817c36ed646d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 24/39] fix: an unknown block is reported for templates without
 blocks, too

---
 askama_derive/src/lib.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/lib.rs b/askama_derive/src/lib.rs
index f8f7ae2..dc2786c 100644
--- a/askama_derive/src/lib.rs
+++ b/askama_derive/src/lib.rs
@@ -78,19 +78,20 @@ pub(crate) fn build_template(ast: &syn::DeriveInput) -> Result<String, CompileEr
 
     let ctx = &contexts[&input.path];
     let heritage = if !ctx.blocks.is_empty() || ctx.extends.is_some() {
-        let heritage = Heritage::new(ctx, &contexts);
-
-        if let Some(block_name) = input.block {
-            if !heritage.blocks.contains_key(&block_name) {
-                return Err(format!("cannot find block {}", block_name).into());
-            }
-        }
-
-        Some(heritage)
+        Some(Heritage::new(ctx, &contexts))
     } else {
         None
     };
 
+    if let Some(block_name) = input.block {
+        let known = heritage
+            .as_ref()
+            .is_some_and(|heritage| heritage.blocks.contains_key(&block_name));
+        if !known {
+            return Err(format!("cannot find block {}", block_name).into());
+        }
+    }
+
     if input.print == Print::Ast || input.print == Print::All {
         eprintln!("{:?}", templates[&input.path].nodes());
     }
-- 
2.43.0


From 9983bd186cade5f7515d0458c221fe03f2f8f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 25/39] fix: comments whose start is also the start of their
 end can be closed

---
 askama_parser/src/node.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..1170678 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -1051,10 +1051,14 @@ impl<'a> Comment<'a> {
         }
 
         fn tag<'a>(i: &'a str, s: &State<'_>) -> ParseResult<'a, Tag> {
-            alt((
-                value(Tag::Open, |i| s.tag_comment_start(i)),
-                value(Tag::Close, |i| s.tag_comment_end(i)),
-            ))(i)
+            let open = value(Tag::Open, |i| s.tag_comment_start(i));
+            let close = value(Tag::Close, |i| s.tag_comment_end(i));
+            // The longer one has to be tried first, and comments cannot be nested if both are same.
+            if s.syntax.comment_end.starts_with(s.syntax.comment_start) {
+                alt((close, open))(i)
+            } else {
+                alt((open, close))(i)
+            }
         }
 
         fn content<'a>(mut i: &'a str, s: &State<'_>) -> ParseResult<'a, ()> {
-- 
2.43.0


From b766f071827aa7e323451baf36802ee568a169f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 26/39] fix: end delimiters that can never be recognized are
 rejected

---
 askama_derive/src/config.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/askama_derive/src/config.rs b/askama_derive/src/config.rs
index ec60d90..f23aaf5 100644
--- a/askama_derive/src/config.rs
+++ b/askama_derive/src/config.rs
@@ -168,6 +168,19 @@ impl<'a> TryInto<Syntax<'a>> for RawSyntax<'a> {
             }
         }
 
+        // The end of a tag could not be told from the continuation of the expression in front of
+        // it, or from a whitespace control character.
+        for (s, kind) in [
+            (syntax.block_end, "block_end"),
+            (syntax.expr_end, "expr_end"),
+        ] {
+            if s.starts_with(['-', '+', '~', '?', '.', '(', '[']) {
+                return Err(
+                    format!("{kind} delimiter may not start with an operator: {s:?}").into(),
+                );
+            }
+        }
+
         for (s1, s2) in [
             (syntax.block_start, syntax.expr_start),
             (syntax.block_start, syntax.comment_start),
-- 
2.43.0


From c80a2f348c5c724588c60658e39c970f2959c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:15 +0000
Subject: [PATCH 27/39] fix: the arguments of a filter block's filter may use
 filters

---
 askama_derive/src/generator.rs | 22 ++++++++++++----------
 askama_parser/src/expr.rs      |  2 +-
 askama_parser/src/node.rs      |  5 ++++-
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index db1b633..3037f1c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -782,7 +782,7 @@ impl<'a> Generator<'a> {
         } = &filter.filters;
         let mut arguments = arguments.clone();
 
-        insert_first_filter_argument(&mut arguments, var_name.clone());
+        set_first_filter_argument(&mut arguments, var_name.clone());
 
         let wrap = self.visit_filter(&mut filter_buf, filter_name, &arguments)?;
 
@@ -2194,7 +2194,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2204,14 +2204,16 @@ fn median(sizes: &mut [usize]) -> usize {
 /// }
 /// ```
 ///
-/// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
-fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+/// So in here, we want to name the variable containing the content of the filter block inside
+/// the call to `"a"`. To do so, we recursively go through all `Filter` until we find the
+/// placeholder that the parser put in as the first argument to the `"a"` call.
+fn set_first_filter_argument(args: &mut [Expr<'_>], var_name: String) {
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            set_first_filter_argument(arguments, var_name)
+        }
+        Some(Expr::Generated(name)) => *name = var_name,
+        _ => unreachable!("filter blocks have a placeholder for their content"),
     }
 }
 
diff --git a/askama_parser/src/expr.rs b/askama_parser/src/expr.rs
index 71fec0d..468cbf5 100644
--- a/askama_parser/src/expr.rs
+++ b/askama_parser/src/expr.rs
@@ -72,7 +72,7 @@ pub enum Expr<'a> {
     Call(Box<Expr<'a>>, Vec<Expr<'a>>),
     RustMacro(Vec<&'a str>, &'a str),
     Try(Box<Expr<'a>>),
-    /// This variant should never be used directly. It is created when generating filter blocks.
+    /// This variant should never be used directly. It stands for the content of a filter block.
     Generated(String),
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 1170678..b594177 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,12 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The first argument stands for the content of the block.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0


From 9ec37df5be9fa463249feef0f32f6d2f5403d519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 28/39] fix: write_into reports templates that fail to render
 instead of panicking

---
 askama/src/helpers.rs | 34 ++++++++++++++++++++++++++++++++++
 askama/src/lib.rs     |  6 ++++--
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/askama/src/helpers.rs b/askama/src/helpers.rs
index 79a1ada..1956955 100644
--- a/askama/src/helpers.rs
+++ b/askama/src/helpers.rs
@@ -1,3 +1,5 @@
+use std::fmt;
+use std::io;
 use std::iter::{Enumerate, Peekable};
 
 pub struct TemplateLoop<I>
@@ -46,3 +48,35 @@ pub struct LoopItem {
     pub first: bool,
     pub last: bool,
 }
+
+/// Lets a template render into an [`io::Write`], and keeps the error of the latter
+pub(crate) struct IoWriter<'a, W: ?Sized> {
+    writer: &'a mut W,
+    error: Option<io::Error>,
+}
+
+impl<'a, W: io::Write + ?Sized> IoWriter<'a, W> {
+    pub(crate) fn new(writer: &'a mut W) -> Self {
+        IoWriter {
+            writer,
+            error: None,
+        }
+    }
+
+    /// The error of the underlying writer if there was one, otherwise the error of the template
+    pub(crate) fn finish(self, result: crate::Result<()>) -> io::Result<()> {
+        result.map_err(|err| {
+            self.error
+                .unwrap_or_else(|| io::Error::new(io::ErrorKind::Other, err))
+        })
+    }
+}
+
+impl<W: io::Write + ?Sized> fmt::Write for IoWriter<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.writer.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..316fedc 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -93,7 +93,9 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        let mut writer = helpers::IoWriter::new(writer);
+        let result = self.render_into(&mut writer);
+        writer.finish(result)
     }
 
     /// The template's extension, if provided
@@ -171,7 +173,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
-- 
2.43.0


From fc9787401e426b0e287b05fcc3994446a73aa011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 29/39] fix: the estimated size of nested loops does not
 overflow

---
 askama_derive/src/generator.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 3037f1c..f04157b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -48,6 +48,10 @@ pub(crate) struct Generator<'a> {
 // for templates and macros that include or call themselves, directly or not.
 const MAX_DEPTH: usize = 512;
 
+/// The most bytes a loop can add to the estimated size of the output (`SIZE_HINT`), unless a
+/// single iteration is larger
+const MAX_LOOP_SIZE_HINT: usize = 1 << 20;
+
 impl<'a> Generator<'a> {
     pub(crate) fn new<'n>(
         input: &'n TemplateInput<'_>,
@@ -569,7 +573,11 @@ impl<'a> Generator<'a> {
         buf.writeln("}")?;
         self.locals.pop();
 
-        Ok(flushed + ((size_hint1 * 3) + size_hint2) / 2)
+        // The estimate grows exponentially with the nesting depth, so it needs to be limited:
+        // it must not overflow, and a buffer of this size is allocated by `Template::render()`.
+        let size_hint = (size_hint1.saturating_mul(3).saturating_add(size_hint2) / 2)
+            .min(MAX_LOOP_SIZE_HINT.max(size_hint1));
+        Ok(flushed + size_hint)
     }
 
     fn write_call(
-- 
2.43.0


From 8b738e96b1389433bd3000e1b4172a729030a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:22 +0000
Subject: [PATCH 30/39] fix: an else that is not the last branch of an if is
 reported

---
 askama_parser/src/node.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index b594177..0316d55 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -954,6 +954,19 @@ pub struct If<'a> {
 
 impl<'a> If<'a> {
     fn parse(i: &'a str, s: &State<'_>) -> ParseResult<'a, Self> {
+        let mut has_else = false;
+        let branch = |i| {
+            let (j, cond) = Cond::parse(i, s)?;
+            if has_else {
+                return Err(nom::Err::Failure(ErrorContext::new(
+                    "`else` has to be the last branch of an `if`",
+                    i,
+                )));
+            }
+            has_else = cond.cond.is_none();
+            Ok((j, cond))
+        };
+
         let mut p = tuple((
             opt(Whitespace::parse),
             |i| CondTest::parse(i, s),
@@ -962,7 +975,7 @@ impl<'a> If<'a> {
                 |i| s.tag_block_end(i),
                 cut(tuple((
                     |i| Node::many(i, s),
-                    many0(|i| Cond::parse(i, s)),
+                    many0(branch),
                     cut(tuple((
                         |i| s.tag_block_start(i),
                         opt(Whitespace::parse),
-- 
2.43.0


From ae84a81da631fc3b3f62e026e9138b1374aa6ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 31/39] fix: skipped branches do not change the indentation of
 a block fragment

---
 askama_derive/src/generator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index f04157b..9ae3906 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1915,10 +1915,16 @@ impl Buffer {
     }
 
     fn indent(&mut self) {
+        if self.discard {
+            return;
+        }
         self.indent += 1;
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From cfff395b2fee513d541e8ad826406194cfe70cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 32/39] fix: the targets of a let may start with a wildcard

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9ae3906..c09f63c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -894,6 +894,8 @@ impl<'a> Generator<'a> {
                 }
                 Ok(false)
             }
+            // `_` and other paths bind no names
+            Target::Path(_) => Ok(false),
             _ => Err("literals are not allowed on the left-hand side of an assignment".into()),
         }
     }
-- 
2.43.0


From ceb6e0a170afd498f088e0785802f88ad584726d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 33/39] fix: break and continue in a filter block keep what it
 contains

---
 askama_derive/src/generator.rs | 72 +++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 9 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c09f63c..ac0a8dd 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -42,6 +42,15 @@ pub(crate) struct Generator<'a> {
     named: usize,
     // How many nodes, macro calls, includes and blocks the current nodes are nested in
     depth: usize,
+    // The innermost filter block between the current nodes and the innermost loop around them
+    filter_block: Option<FilterBlockExit>,
+}
+
+// A `break` or `continue` inside of a filter block must not lose what the block contains so far,
+// so it leaves the block first.
+struct FilterBlockExit {
+    label: String,
+    used: bool,
 }
 
 // The parser limits how deep the nodes of a single template can be nested. This limit is needed
@@ -73,6 +82,7 @@ impl<'a> Generator<'a> {
             },
             named: 0,
             depth: 0,
+            filter_block: None,
         }
     }
 
@@ -335,12 +345,12 @@ impl<'a> Generator<'a> {
                 Node::Break(ws) => {
                     self.handle_ws(ws);
                     self.write_buf_writable(buf)?;
-                    buf.writeln("break;")?;
+                    self.write_loop_exit(buf, "break")?;
                 }
                 Node::Continue(ws) => {
                     self.handle_ws(ws);
                     self.write_buf_writable(buf)?;
-                    buf.writeln("continue;")?;
+                    self.write_loop_exit(buf, "continue")?;
                 }
             }
         }
@@ -550,7 +560,9 @@ impl<'a> Generator<'a> {
         if has_else_nodes {
             buf.writeln("_did_loop = true;")?;
         }
+        let outer_filter_block = self.filter_block.take();
         let mut size_hint1 = self.handle(ctx, &loop_block.body, buf, AstLevel::Nested)?;
+        self.filter_block = outer_filter_block;
         self.handle_ws(loop_block.ws2);
         size_hint1 += self.write_buf_writable(buf)?;
         self.locals.pop();
@@ -770,18 +782,39 @@ impl<'a> Generator<'a> {
         buf.writeln(&format!(
             "let mut {var_name} = ::std::string::String::new();"
         ))?;
-        buf.writeln(&format!("let {writer_name} = &mut *writer;"))?;
-        buf.writeln(&format!(
-            "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
-        ))?;
         self.locals
             .insert(Cow::Owned(var_name.clone()), LocalMeta::initialized());
 
+        let outer_filter_block = self.filter_block.replace(FilterBlockExit {
+            label: format!("'{var_name}"),
+            used: false,
+        });
+        let mut body = Buffer::new(buf.indent);
+        body.discard = buf.discard;
         self.prepare_ws(filter.ws1);
-        size_hint += self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
+        size_hint += self.handle(ctx, &filter.nodes, &mut body, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-        size_hint += self.write_buf_writable(buf)?;
-        buf.writeln(&format!("let writer = {writer_name};"))?;
+        size_hint += self.write_buf_writable(&mut body)?;
+        let filter_block = mem::replace(&mut self.filter_block, outer_filter_block);
+
+        let exit = filter_block.filter(|filter_block| filter_block.used);
+        let exit_name = format!("{var_name}_exit");
+        if let Some(FilterBlockExit { label, .. }) = &exit {
+            buf.writeln(&format!("let {exit_name} = {label}: {{"))?;
+        } else {
+            buf.writeln(&format!("let {writer_name} = &mut *writer;"))?;
+        }
+        buf.writeln(&format!(
+            "let writer: &mut dyn ::std::fmt::Write = &mut {var_name};"
+        ))?;
+        buf.buf.push_str(&body.buf);
+        if exit.is_some() {
+            buf.writeln("\"\"")?;
+            buf.dedent()?;
+            buf.writeln("};")?;
+        } else {
+            buf.writeln(&format!("let writer = {writer_name};"))?;
+        }
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
@@ -796,11 +829,30 @@ impl<'a> Generator<'a> {
 
         self.buf_writable
             .push(Writable::Generated(filter_buf.buf, wrap));
+        if exit.is_some() {
+            size_hint += self.write_buf_writable(buf)?;
+            for statement in ["break", "continue"] {
+                buf.writeln(&format!("if {exit_name} == {statement:?} {{"))?;
+                self.write_loop_exit(buf, statement)?;
+                buf.writeln("}")?;
+            }
+        }
         self.prepare_ws(filter.ws2);
 
         Ok(size_hint)
     }
 
+    // Writes a `break` or `continue` that first completes the filter block it is in, if any.
+    fn write_loop_exit(&mut self, buf: &mut Buffer, statement: &str) -> Result<(), CompileError> {
+        match &mut self.filter_block {
+            Some(filter_block) => {
+                filter_block.used = true;
+                buf.writeln(&format!("break {} {statement:?};", filter_block.label))
+            }
+            None => buf.writeln(&format!("{statement};")),
+        }
+    }
+
     fn handle_include(
         &mut self,
         ctx: &Context<'a>,
@@ -1011,6 +1063,7 @@ impl<'a> Generator<'a> {
 
         child.super_block = Some(cur);
         child.depth = self.depth;
+        child.filter_block = self.filter_block.take();
         // The variables of the block must not leak into the surrounding template.
         buf.writeln("{")?;
         let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
@@ -1020,6 +1073,7 @@ impl<'a> Generator<'a> {
         size_hint += child.write_buf_writable(buf)?;
         buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
+        self.filter_block = child.filter_block;
 
         // Restore original block context and set whitespace suppression for
         // succeeding whitespace according to the outer WS spec
-- 
2.43.0


From 65cc82a0b35fa60eff6f418c4af40ebedada646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:17 +0000
Subject: [PATCH 34/39] fix: the names generated code uses may be shadowed
 where the type is defined

---
 askama_derive/src/generator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index ac0a8dd..0aef71d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -126,7 +126,7 @@ impl<'a> Generator<'a> {
                 let include_path = canonical_path.to_str().unwrap();
                 buf.writeln(
                     &quote! {
-                        include_bytes!(#include_path);
+                        ::std::include_bytes!(#include_path);
                     }
                     .to_string(),
                 )?;
@@ -423,7 +423,7 @@ impl<'a> Generator<'a> {
                     buf.write("*(&(");
                     let expr_code = self.visit_expr_root(expr)?;
                     buf.write(&expr_code);
-                    buf.write(") as &bool)");
+                    buf.write(") as &::std::primitive::bool)");
                 }
             } else {
                 buf.dedent()?;
@@ -544,7 +544,7 @@ impl<'a> Generator<'a> {
             self.locals.push();
             buf.write("let _iter = _iter.filter(|");
             self.visit_target(buf, true, true, &loop_block.var);
-            buf.write("| -> bool {");
+            buf.write("| -> ::std::primitive::bool {");
             self.visit_expr(buf, cond)?;
             buf.writeln("});")?;
             self.locals.pop();
@@ -869,7 +869,7 @@ impl<'a> Generator<'a> {
             let include_path = canonical_path.to_str().unwrap();
             buf.writeln(
                 &quote! {
-                    include_bytes!(#include_path);
+                    ::std::include_bytes!(#include_path);
                 }
                 .to_string(),
             )?;
-- 
2.43.0


From ce6b89498a88df4efc9829d31343aec06c62639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 35/39] fix: a macro parameter may be called writer

---
 askama_derive/src/generator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 0aef71d..fd749b5 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2070,11 +2070,12 @@ impl<'a> MapChain<'_, Cow<'a, str>, LocalMeta> {
     /// Adds a new variable to the current scope, and returns its name in the generated code.
     ///
     /// It's the name of the variable, unless a macro argument that is still in use refers to
-    /// another variable of that name.
+    /// another variable of that name, or the generated code itself does (macro parameters may be
+    /// called `writer`).
     fn declare(&mut self, name: &'a str, initialized: bool) -> String {
         let mut var = name.to_string();
         for id in 0.. {
-            if !self.is_referenced(name, &var) {
+            if var != "writer" && !self.is_referenced(name, &var) {
                 break;
             }
             var = format!("__{}_{id}", name.trim_start_matches("r#"));
-- 
2.43.0


From 3af0ccb0e5ff33d988389e246ddca387f035c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:02 +0000
Subject: [PATCH 36/39] fix: an identifier may be called loop

---
 askama_derive/src/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index fd749b5..c003dc3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2399,6 +2399,7 @@ fn normalize_identifier(ident: &str) -> &str {
         *b"r#else____",
         *b"r#enum____",
         *b"r#impl____",
+        *b"r#loop____",
         *b"r#move____",
         *b"r#priv____",
         *b"r#true____",
-- 
2.43.0


From de0aa7fe9e38ed3414658f6090d8a148b468e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 37/39] fix: a where clause does not need generics in front of
 it

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index c003dc3..e8d17b3 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -259,7 +259,7 @@ impl<'a> Generator<'a> {
         };
 
         buf.writeln(&format!(
-            "{} {} for {}{} {{",
+            "{} {} for {} {} {{",
             quote!(impl #impl_generics),
             target,
             self.input.ast.ident,
-- 
2.43.0


From b537300bece9becd1c91423380b44453344f8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 38/39] fix: outputs before a let of an uppercase name keep its
 earlier value

---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index e8d17b3..2f55d54 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -946,8 +946,8 @@ impl<'a> Generator<'a> {
                 }
                 Ok(false)
             }
-            // `_` and other paths bind no names
-            Target::Path(_) => Ok(false),
+            // `_` and longer paths bind no names
+            Target::Path(path) => Ok(path.len() == 1 && path[0] != "_"),
             _ => Err("literals are not allowed on the left-hand side of an assignment".into()),
         }
     }
-- 
2.43.0


From c15b287d67a9f5607808043deee0d4abde7c5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:56 +0000
Subject: [PATCH 39/39] fix: a name with an initial underscore, or without
 case, is a variable

---
 askama_parser/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index e589286..bd0256c 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -498,6 +498,13 @@ enum PathOrIdentifier<'a> {
     Identifier(&'a str),
 }
 
+/// Returns `true` unless the first letter of the name is uppercase, as in the names of types and
+/// constants. There can be underscores before it.
+fn is_variable_name(name: &str) -> bool {
+    let first = name.chars().find(|c| *c != '_');
+    name != "_" && !first.map_or(false, char::is_uppercase)
+}
+
 fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
     let root = ws(opt(tag("::")));
     let tail = opt(many1(preceded(ws(tag("::")), identifier)));
@@ -517,9 +524,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
-            Ok((i, PathOrIdentifier::Identifier(name)))
-        }
+        (None, name, []) if is_variable_name(name) => Ok((i, PathOrIdentifier::Identifier(name))),
         (None, start, tail) => {
             let mut path = Vec::with_capacity(1 + tail.len());
             path.push(start);
-- 
2.43.0

